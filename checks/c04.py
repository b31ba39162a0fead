# -*- coding: utf-8 -*-
"""C04: start/stop lifecycle is strict and survives failing starts."""
from __future__ import absolute_import

import itertools
import signal

from mc import world
from mc.core import expect, expect_equal, sequences

from profiling.profiler import Profiler, ProfilerWrapper
from profiling.remote.background import BackgroundProfiler
from profiling.sampling import SamplingProfiler
from profiling.sampling.samplers import ItimerSampler, TracingSampler
from profiling.tracing import TracingProfiler
from profiling.tracing.timers import (
    ContextualTimer, GreenletTimer, ThreadTimer, Timer)
from profiling.utils import Runnable

INFO = {
    'technique': 'bounded exhaustive enumeration of operation histories with '
                 'faults on the real classes against a lifecycle automaton',
    'bounds': 'all histories up to 5 (quick) / 7 (thorough) operations out of '
              'start, start failing at each environment call, stop, with, '
              'record, clock advance, read result; on every profiler, '
              'timer, sampler and wrapper and on canonical and non-canonical '
              'implementations',
    'assumptions': ['hooks, signals and clocks of the process are modelled '
                    '(mc/world.py)'],
}


class Frame(object):

    def __init__(self, code, back=None):
        self.f_code = code
        self.f_back = back
        self.f_lineno = 1
        self.f_globals = {}


def recorded():
    pass


class Failed(Exception):
    pass


# -- subjects: (factory, is a profiler, number of start faults) --------------


class Plain(Runnable):

    script = 'y'

    def __init__(self, script='y'):
        self.script = script
        self.log = []

    def run(self):
        for ch in self.script:
            if ch == 'y':
                yield
            elif ch == 'v':
                yield 0
            elif ch == 'f':
                raise Failed()
            elif ch == 'i':
                raise KeyboardInterrupt()
            self.log.append(ch)


class NotOverridden(Runnable):
    pass


class PlainProfiler(Profiler):

    def run(self):
        yield


class PlainWrapper(ProfilerWrapper):

    def run(self):
        with self.profiler:
            yield


class Subject(object):

    #: whether the subject is a profiler.
    profiler = False
    #: the profiler which records.
    recorder = None
    start_error = None
    stop_error = None
    args = ()

    def __init__(self, world):
        self.world = world


def plain(script, start_error=None, stop_error=None):
    class S(Subject):
        def __init__(self, world):
            Subject.__init__(self, world)
            self.obj = Plain(script)
            self.start_error = start_error
            self.stop_error = stop_error
    return S


class NotImplementedSubject(Subject):
    start_error = NotImplementedError

    def __init__(self, world):
        Subject.__init__(self, world)
        self.obj = NotOverridden()


def timer(cls):
    class S(Subject):
        args = (None,)

        def __init__(self, world):
            Subject.__init__(self, world)
            self.obj = cls()
    return S


def sampler(cls):
    class S(Subject):
        def __init__(self, world):
            Subject.__init__(self, world)
            self.inner = SamplingProfiler(sampler=cls())
            self.obj = self.inner.sampler
            self.args = (self.inner,)
    return S


def profiler(make, wrap=None):
    class S(Subject):
        profiler = True

        def __init__(self, world):
            Subject.__init__(self, world)
            self.recorder = self.obj = make()
            if wrap is not None:
                self.obj = wrap(self.recorder)
                if hasattr(self.obj, 'prepare'):
                    self.obj.prepare()
    return S


SUBJECTS = {
    'canonical': plain('y'),
    'does more': plain('.y.'),
    'yields never': plain('', start_error=TypeError),
    'yields value': plain('v', start_error=TypeError),
    'yields value twice': plain('vy', start_error=TypeError),
    'yields twice': plain('yy', stop_error=TypeError),
    'yields value later': plain('yv', stop_error=TypeError),
    'fails to start': plain('fy', start_error=Failed),
    'interrupted': plain('iy', start_error=KeyboardInterrupt),
    'fails to stop': plain('yf', stop_error=Failed),
    'not implemented': NotImplementedSubject,
    'timer': timer(Timer),
    'contextual timer': timer(ContextualTimer),
    'thread timer': timer(ThreadTimer),
    'greenlet timer': timer(GreenletTimer),
    'itimer sampler': sampler(ItimerSampler),
    'tracing sampler': sampler(TracingSampler),
    'plain profiler': profiler(PlainProfiler),
    'tracing': profiler(lambda: TracingProfiler()),
    'tracing, greenlets': profiler(
        lambda: TracingProfiler(timer=GreenletTimer())),
    'sampling, itimer': profiler(
        lambda: SamplingProfiler(sampler=ItimerSampler())),
    'sampling, tracing': profiler(
        lambda: SamplingProfiler(sampler=TracingSampler())),
    'wrapped tracing': profiler(lambda: TracingProfiler(), PlainWrapper),
    'wrapped twice': profiler(lambda: TracingProfiler(),
                              lambda p: PlainWrapper(PlainWrapper(p))),
    'background tracing': profiler(lambda: TracingProfiler(),
                                   BackgroundProfiler),
    'background sampling': profiler(
        lambda: SamplingProfiler(sampler=ItimerSampler()),
        BackgroundProfiler),
}


def faults(name):
    """The number of environment calls of a start."""
    w = world.HookWorld()
    with w.active():
        s = SUBJECTS[name](w)
        if s.start_error or s.stop_error:
            return 0
        w.arm(None)
        s.obj.start(*s.args)
        n = w.calls
        s.obj.stop()
    return n


class Checker(object):
    """The automaton."""

    def __init__(self, name):
        self.world = world.HookWorld()
        self.name = name
        self.running = False
        self.hits = 0
        self.started_at = None
        self.known = False  # whether what is recorded is specified.

    def apply(self, history):
        with self.world.active():
            self.subject = SUBJECTS[self.name](self.world)
            for op in history:
                self.step(op)
                self.observe()

    def attempt(self, func, *args):
        try:
            func(*args)
        except (KeyboardInterrupt, Exception) as exc:
            return exc
        return None

    def step(self, op):
        s, w = self.subject, self.world
        if op == 'tick':
            w.cpu += 1.0
            w.wall += 4.0
            w.thread_cpu += 1.0
        elif op == 'record':
            self.record()
        elif op == 'result':
            s.obj.result()
        elif op == 'with':
            ran = []

            def block():
                with s.obj as it:
                    ran.append(it)
                    expect(s.obj.is_running(), 'not running within with')
            exc = self.attempt(block)
            if self.running:
                self.expect_raised(exc, RuntimeError, 'with while running')
            elif s.start_error:
                self.expect_raised(exc, s.start_error, 'with')
                expect(not ran, 'with block ran after a failed start')
                self.known = False
            else:
                self.expect_raised(exc, s.stop_error, 'with')
                expect(ran == [s.obj], 'with gives %r', ran)
                self.running = False
                self.begin()
        elif op.startswith('start'):
            fault = int(op[5:]) if op[5:] else None
            if fault:
                w.arm(fault)
            exc = self.attempt(s.obj.start, *s.args)
            reached = w.fail_at is not None and w.calls >= w.fail_at
            w.disarm()
            if self.running:
                self.expect_raised(exc, RuntimeError, 'start while running')
            elif s.start_error:
                self.expect_raised(exc, s.start_error, 'start')
            elif reached:
                expect(exc is not None, 'a failing start raises nothing')
                self.known = False
            else:
                self.expect_raised(exc, None, 'start')
                self.running = True
                self.begin()
        elif op == 'inner':
            # the wrapped profiler runs already.
            if self.running:
                return
            s.recorder.start()
            self.running = True
            self.begin()
            self.observe()
            exc = self.attempt(s.obj.start)
            self.expect_raised(exc, RuntimeError, 'start of the wrapper')
            self.observe()
            s.recorder.stop()
            self.running = False
        elif op == 'stop':
            exc = self.attempt(s.obj.stop)
            if not self.running:
                self.expect_raised(exc, RuntimeError, 'stop while not running')
            else:
                self.expect_raised(exc, s.stop_error, 'stop')
                self.running = False

    def begin(self):
        self.hits = 0
        self.known = True
        self.started_at = (self.world.cpu, self.world.wall)
        if self.subject.profiler:
            n = sum(st.own_hits for st in self.subject.recorder.stats
                    if st.name == 'recorded')
            expect_equal(n, 0, 'hits at the start')

    def expect_raised(self, exc, cls, what):
        if cls is None:
            expect(exc is None, '%s raised %r', what, exc)
        else:
            expect(type(exc) is cls, '%s raised %r instead of %s', what, exc,
                   cls.__name__)

    def record(self):
        """Something happens which a running profiler records."""
        w = self.world
        frame = Frame(recorded.__code__)
        before = self.hits
        if w.profile is not None:
            w.thread_cpu += 1.0
            w.profile(frame, 'call', None)
            w.profile(frame, 'return', None)
            if self.running:
                self.hits += 1
        handler = w.handlers.get(int(signal.SIGPROF))
        if callable(handler):
            handler(signal.SIGPROF, frame)
            if self.running and self.hits == before:
                self.hits += 1

    def observe(self):
        s, w = self.subject, self.world
        expect(s.obj.is_running() is self.running, 'is_running() is %r',
               s.obj.is_running())
        if not s.profiler:
            return
        expect(s.recorder.is_running() is self.running,
               'the wrapped profiler is running: %r',
               s.recorder.is_running())
        if not self.known:
            return
        stats, cpu, wall = s.obj.result()
        expect(s.obj.stats is s.recorder.stats, 'stats of a wrapper')
        # the root node of the recording must be intact.
        hits = [st.own_hits for st in stats if st.name == 'recorded']
        if 'sampling' in self.name and 'tracing' in self.name:
            # it may sample at the return event as well.
            expect((hits != []) == (self.hits > 0) and
                   (not hits or hits[0] >= self.hits),
                   'hits: got %r, want %d', hits, self.hits)
        else:
            expect_equal(sum(hits), self.hits, 'recorded hits')
        if self.running:
            expect_equal((cpu, wall), (w.cpu - self.started_at[0],
                                       w.wall - self.started_at[1]),
                         'times of the running session')


def run_case(ctx, name, history):
    checker = Checker(name)
    ctx.step(len(history))
    checker.apply(history)
    ctx.state((name, checker.running, min(checker.hits, 3), checker.known,
               history[-1]))
    ctx.outcome((name, checker.running))


def alphabet(name, n):
    ops = ['start', 'stop', 'with', 'tick']
    ops += ['start%d' % (x + 1) for x in range(n)]
    w = world.HookWorld()
    with w.active():
        s = SUBJECTS[name](w)
        if s.args:
            # start() needs arguments.
            ops.remove('with')
        if s.profiler:
            ops += ['record', 'result']
            if s.obj is not s.recorder:
                ops += ['inner']
    return ops


def long_histories(ops):
    """Many sessions of one object."""
    ops = set(ops)
    for unit in (('start', 'tick', 'stop'), ('start', 'start', 'stop', 'stop'),
                 ('start1', 'start', 'stop'), ('with',), ('with', 'stop'),
                 ('start2', 'with'), ('start', 'record', 'stop', 'result'),
                 ('start', 'record', 'record', 'tick', 'result', 'stop'),
                 ('inner', 'start', 'record', 'stop')):
        if ops.issuperset(unit):
            yield unit * 40
    if 'record' in ops:
        yield ('start',) + ('record', 'tick') * 150 + ('result', 'stop')


def run(ctx):
    depth = 5 if ctx.quick else 6

    def work(ctx, shard, n):
        x = 0
        for name in sorted(SUBJECTS):
            ops = alphabet(name, faults(name))
            d = depth
            if len(ops) > 8:
                d -= 1
            for history in itertools.chain(sequences(ops, d),
                                           long_histories(ops)):
                x += 1
                if x % n == shard:
                    ctx.case({'subject': name, 'history': history},
                             run_case, ctx, name, history)
    ctx.shards(work)


def replay(ctx, case):
    ctx.case(case, run_case, ctx, case['subject'], tuple(case['history']))
