# -*- coding: utf-8 -*-
"""C14: the result's CPU and wall time describe the profiled session."""
from __future__ import absolute_import

import itertools
import pickle
import sys

from mc import env
env.install(*env.CLOCKS)

from mc import world
from mc.core import expect, expect_equal

from profiling.profiler import Profiler, ProfilerWrapper
from profiling.sampling import SamplingProfiler
from profiling.sampling.samplers import Sampler
from profiling.tracing import TracingProfiler
from profiling.tracing.timers import Timer

INFO = {
    'technique': 'exhaustive enumeration of session and clock histories on '
                 'the real profilers under owned clocks',
    'bounds': 'all histories of up to 6 (quick) / 7 (thorough) of 7 events '
              '(start, stop, wall and CPU ticks, both clocks stepping back, '
              'a profiled call) for 5 profilers, up to 8 / 9 of start, stop and tick; the result is '
              'taken twice after every event',
    'assumptions': [],
}

EVENTS = ('start', 'stop', 'tick', 'cpu', 'wall back', 'cpu back', 'call')


class Null(Profiler):

    def run(self):
        yield


class FailingStop(Profiler):

    def run(self):
        yield
        raise ValueError


class NullSampler(Sampler):

    def run(self, profiler):
        yield


class Wrapper(ProfilerWrapper):

    def run(self):
        self.profiler.start()
        yield
        self.profiler.stop()


class VTimer(Timer):

    def __init__(self, clock):
        self.c = clock

    def __call__(self):
        return self.c.cpu


class Costly(TracingProfiler):
    """Handling an event takes some time."""

    handling = 0.0
    handled = 0.0

    def handle(self):
        self.timer.c.cpu += self.handling
        self.handled += self.handling

    def record_entering(self, *args):
        self.handle()
        return super(Costly, self).record_entering(*args)

    def record_leaving(self, *args):
        self.handle()
        return super(Costly, self).record_leaving(*args)


def new(kind, clock):
    if kind == 'null':
        return Null()
    if kind == 'failing stop':
        return FailingStop()
    if kind == 'sampling':
        return SamplingProfiler(sampler=NullSampler())
    if kind == 'wrapper':
        return Wrapper(Null())
    return Costly(timer=VTimer(clock))


def called():
    pass


def run_case(ctx, kind, history):
    w = world.HookWorld()
    clock = env.VirtualClock(cpu=100.0, wall=5000.0)
    with w.active():
        with env.patched(clock.targets()):
            play(ctx, w, clock, kind, history)


def play(ctx, w, clock, kind, history):
    profiler = new(kind, clock)
    started = None
    want = (0, 0)
    own = 0.0
    running = False
    for n, event in enumerate(history):
        # every sum is exact.
        unit = 2.0 ** (n % 20 + 1)
        if event == 'start':
            if running:
                # rejected: the session goes on.
                expect_raises(RuntimeError, profiler.start)
            else:
                profiler.start()
                running = True
                started = (clock.cpu, clock.wall)
                own = 0.0
        elif event == 'stop':
            if not running:
                expect_raises(RuntimeError, profiler.stop)
            else:
                if kind == 'failing stop':
                    expect_raises(ValueError, profiler.stop)
                else:
                    profiler.stop()
                running = False
                want = elapsed(clock, started, own)
        elif event == 'tick':
            clock.cpu += unit
            clock.wall += 3 * unit
        elif event == 'cpu':
            clock.cpu += unit
        elif event == 'wall back':
            clock.wall -= 5 * unit
        elif event == 'cpu back':
            clock.cpu -= 5 * unit
        elif event == 'call':
            if kind == 'tracing':
                Costly.handling = unit
                if running:
                    frame = sys._getframe()
                    before = profiler.handled
                    w.profile(frame, 'call', None)
                    clock.cpu += 0.5
                    w.profile(frame, 'return', None)
                    own += profiler.handled - before
                else:
                    clock.cpu += 0.5
            else:
                clock.cpu += 0.5
        if running:
            want = elapsed(clock, started, own)
        for __ in range(2):
            got = profiler.result()[1:]
            expect_equal(got, want, '(CPU time, wall time) after %r' %
                         (history,))
            expect(got[0] >= 0 and got[1] >= 0, 'negative time')
            # taking the result takes time too.
            if not running:
                clock.cpu += 0.25
                clock.wall += 0.25
        ctx.step()
        ctx.state((kind, want, running))
    ctx.outcome((kind, running))
    if running:
        try:
            profiler.stop()
        except ValueError:
            pass


def elapsed(clock, started, own):
    return (max(0, max(0, clock.cpu - started[0]) - own),
            max(0, clock.wall - started[1]))


def expect_raises(exc, f):
    try:
        f()
    except exc:
        pass
    else:
        expect(False, 'no %s', exc.__name__)


def cases(ctx):
    n = 6 if ctx.quick else 7
    for k in range(1, n + 1):
        for history in itertools.product(EVENTS, repeat=k):
            if 'start' not in history and k > 3:
                continue
            for kind in ('null', 'tracing', 'sampling', 'wrapper',
                         'failing stop'):
                if k == n and kind not in ('null', 'tracing'):
                    continue
                if kind != 'tracing' and 'call' in history:
                    continue
                yield kind, history
    # longer ones.
    few = ('start', 'stop', 'tick')
    for history in itertools.product(few, repeat=n + 2):
        yield 'null', history
    # many sessions.
    for unit in (('start', 'tick', 'stop'), ('start', 'cpu', 'stop', 'tick'),
                 ('start', 'wall back', 'stop'), ('start', 'start', 'stop'),
                 ('start', 'cpu back', 'cpu', 'stop', 'stop'),
                 ('start', 'tick', 'call', 'stop')):
        for kind in ('null', 'tracing', 'sampling', 'wrapper',
                     'failing stop'):
            if kind == 'tracing' or 'call' not in unit:
                yield kind, unit * 60


def run(ctx):
    def work(ctx, shard, n):
        for x, (kind, history) in enumerate(cases(ctx)):
            if x % n == shard:
                ctx.case({'profiler': kind, 'history': history}, run_case,
                         ctx, kind, history)
    ctx.shards(work)


def replay(ctx, case):
    ctx.case(case, run_case, ctx, case['profiler'], tuple(case['history']))
