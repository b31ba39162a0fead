# -*- coding: utf-8 -*-
"""C06: contextual timers charge a context only its own CPU time."""
from __future__ import absolute_import

import itertools
import time

from mc import env
env.install('sys.setprofile', 'sys.getprofile', 'threading.setprofile',
            *env.CLOCKS)
from mc import core
from mc.core import expect_equal, sequences
from mc.greens import Greens

from profiling.tracing import TracingProfiler
from profiling.tracing.timers import (
    ContextualTimer, GreenletTimer, ThreadTimer)

INFO = {
    'technique': 'explicit-state enumeration of all context switch histories '
                 'with real greenlets under a virtual CPU clock',
    'bounds': 'all histories up to 6 (quick) / 7 (thorough) operations out of '
              'switch, throw, end of a greenlet, start, stop over 3 contexts, '
              'distinct CPU time between any two operations; the same with '
              'call and return events; all pause/resume histories of explicit '
              'contexts; all interleavings of 3 threads; up to 120 greenlets',
    'assumptions': ['the CPU clock is virtual and exact',
                    'one operating system thread switches greenlets'],
}


class Clock(object):

    def __init__(self):
        self.cpu = 64.0
        self.n = 0
        self.own = {}

    def tick(self, context):
        d = float(1 << (self.n % 20))
        self.n += 1
        self.cpu += d
        self.own[context] = self.own.get(context, 0.0) + d

    def targets(self):
        return dict((k, v) for k, v in {
            'time.clock': lambda: self.cpu,
            'time.process_time': lambda: self.cpu,
            'time.perf_counter': lambda: self.cpu,
            'time.time': lambda: 5000.0}.items() if k in env.TRAMPOLINES)


def greenlet_case(ctx, history, contexts=3):
    """The bare timer in real greenlets."""
    clock = Clock()
    with env.patched(clock.targets()):
        timer = GreenletTimer()
        state = {'running': False, 'base': {}}

        def check(me):
            if not state['running']:
                return
            now, own = timer(), clock.own.get(me, 0.0)
            me = (me, greens.made.get(me))
            if me in state['base']:
                t, o = state['base'][me]
                expect_equal(now - t, own - o, 'CPU time of context %d' % me[0])
            else:
                # the base of its measurements
                state['base'][me] = (now, own)

        def execute(me, op):
            if op[0] == 'start':
                if not state['running']:
                    timer.start(None)
                    state['running'] = True
                    state['base'] = {}
            elif op[0] == 'stop':
                if state['running']:
                    timer.stop()
                    state['running'] = False
            check(me)
            clock.tick(me)
            check(me)
        greens = Greens(contexts, execute)
        try:
            # each operation is followed by some work.
            greens.run([y for x in history for y in (x, ('work',))])
        finally:
            if timer.is_running():
                timer.stop()
        ctx.step(len(history))
        ctx.state((state['running'], greens.current,
                   tuple(sorted(state['base'])), history[-1]))
        ctx.outcome(len(state['base']))


class Frame(object):

    def __init__(self, code, back):
        self.f_code = code
        self.f_back = back
        self.f_lineno = 1
        self.f_globals = {}


def base():
    pass


def f0():
    pass


def f1():
    pass


def f2():
    pass


CODES = [f0.__code__, f1.__code__, f2.__code__]


class Costly(TracingProfiler):
    """Processing an event costs time, which is part of the overhead."""

    clock = None
    cost = 0.0

    def frame_stack(self, *args, **kwargs):
        self.clock.cpu += self.cost
        return super(Costly, self).frame_stack(*args, **kwargs)


def profiled_case(ctx, history, cost=0.0):
    """Calls in greenlets under a tracing profiler with a greenlet timer."""
    clock = Clock()
    hooks = {}
    targets = clock.targets()
    targets['sys.setprofile'] = lambda f: hooks.update(profile=f)
    targets['sys.getprofile'] = lambda: hooks.get('profile')
    targets['threading.setprofile'] = lambda f: None
    with env.patched(targets):
        root = Frame(base.__code__, None)
        profiler = Costly(base_frame=root, timer=GreenletTimer())
        profiler.clock = clock
        profiler.cost = cost
        stacks = {0: [root], 1: [root], 2: [root]}
        entered, total = {}, {}

        def execute(me, op):
            if op[0] == 'call' and len(stacks[me]) == 1:
                frame = Frame(CODES[me], stacks[me][-1])
                stacks[me].append(frame)
                hooks['profile'](frame, 'call', None)
                entered[me] = clock.own.get(me, 0.0)
                total.setdefault(me, [0, 0.0])[0] += 1
            elif op[0] == 'return' and len(stacks[me]) > 1:
                hooks['profile'](stacks[me].pop(), 'return', None)
                total[me][1] += clock.own.get(me, 0.0) - entered[me]
            clock.tick(me)
        greens = Greens(3, execute)
        with profiler:
            greens.run([y for x in history for y in (x, ('work',))])
            __, cpu_time, __ = profiler.result()
        expect_equal(cpu_time, sum(clock.own.values()), 'total CPU time')
        got = dict((CODES.index(st.code), [st.own_hits, st.deep_time])
                   for st in profiler.stats)
        expect_equal(got, total, 'calls and times by context')
        ctx.step(len(history))
        ctx.state(('profiled', sorted((k, len(v)) for k, v in stacks.items()),
                   history[-1]))


class Explicit(ContextualTimer):

    current = 0

    def detect_context(self):
        return self.current


def many_case(ctx, history):
    """[number of contexts, rounds, whether each one ends at last]"""
    n, rounds, ends = history
    ops = [('start',)]
    for r in range(rounds):
        for x in range(1, n):
            ops += [('switch', x), ('switch', (x * 7 + r) % n)]
            if ends and r == rounds - 1:
                ops += [('switch', x), ('exit',)]
    greenlet_case(ctx, ops + [('stop',)], n)


def explicit_case(ctx, history):
    """Pausing and resuming contexts explicitly."""
    clock = Clock()
    with env.patched(clock.targets()):
        timer = Explicit()
        running, own, base = {}, {}, {}

        def check():
            for c in (0, 1):
                timer.current = c
                expect_equal(timer(), timer(c), 'the current context')
                now = timer(c)
                if c in base:
                    expect_equal(now - base[c][0], own[c] - base[c][1],
                                 'time of context %d' % c)
        for op, c in history:
            if op == 'pause':
                if running.get(c) is not True:
                    return
                timer.pause(c)
                running[c] = False
            elif op == 'resume':
                if running.get(c):
                    return
                timer.resume(c)
                running[c] = True
                if c not in base:
                    own[c] = 0.0
                    base[c] = (timer(c), 0.0)
            check()
            d = float(1 << clock.n)
            clock.tick('x')
            for x in running:
                if running[x]:
                    own[x] += d
            check()
        ctx.step(len(history))
        ctx.state(('explicit', tuple(sorted(running.items()))))


def thread_case(ctx, history):
    """Reads of the thread timer in three threads."""
    own = {}
    state = {'me': 0}

    def clock_gettime(which):
        if which == time.CLOCK_THREAD_CPUTIME_ID:
            return own.get(state['me'], 0.0)
        return sum(own.values()) + 100.0
    targets = {'time.clock_gettime': clock_gettime,
               'time.thread_time': lambda: own.get(state['me'], 0.0),
               'time.clock': lambda: sum(own.values()),
               'time.process_time': lambda: sum(own.values()),
               'time.time': lambda: 1000.0 + sum(own.values()),
               'time.perf_counter': lambda: sum(own.values())}
    with env.patched(dict((k, v) for k, v in targets.items()
                          if k in env.TRAMPOLINES)):
        timer = ThreadTimer()
        timer.start(None)
        base = {}
        for n, me in enumerate(history):
            state['me'] = me
            now = timer()
            if me in base:
                expect_equal(now - base[me][0], own.get(me, 0.0) - base[me][1],
                             'CPU time of thread %d' % me)
            else:
                base[me] = (now, own.get(me, 0.0))
            own[me] = own.get(me, 0.0) + float(1 << n)
        timer.stop()
        ctx.step(len(history))
        ctx.state(('threads', history[-1], len(base)))


GREEN_OPS = [('switch', 0), ('switch', 1), ('switch', 2), ('throw', 0),
             ('throw', 1), ('exit',), ('start',), ('stop',)]
PROFILED_OPS = [('switch', 0), ('switch', 1), ('switch', 2), ('throw', 1),
                ('call',), ('return',)]
EXPLICIT_OPS = list(itertools.product(('pause', 'resume'), (0, 1)))


def cases(ctx):
    n = 6 if ctx.quick else 7
    for history in sequences(GREEN_OPS, n):
        # nothing is measured before the first start.
        if ('start',) in history:
            yield 'greenlets', history
    for history in sequences(PROFILED_OPS, n):
        if ('call',) in history and ('return',) in history:
            yield 'profiled', history
    for history in sequences(EXPLICIT_OPS, n + 1):
        yield 'explicit', history
    for history in sequences((0, 1, 2), n + 1):
        yield 'threads', history
    for contexts in (2, 10, 40, 120):
        for rounds in (1, 3):
            for ends in (0, 1):
                yield 'many', (contexts, rounds, ends)


FUNCS = {'greenlets': greenlet_case, 'many': many_case, 'profiled': profiled_case,
         'explicit': explicit_case, 'threads': thread_case}


def run(ctx):
    def work(ctx, shard, n):
        for x, (kind, history) in enumerate(cases(ctx)):
            if x % n == shard:
                ctx.case({'kind': kind, 'history': history}, FUNCS[kind],
                         ctx, history)
    ctx.shards(work)


def replay(ctx, case):
    history = tuple(tuple(x) if isinstance(x, list) else x
                    for x in case['history'])
    ctx.case(case, FUNCS[case['kind']], ctx, history)
