# -*- coding: utf-8 -*-
"""C03: concurrent threads lose no calls and corrupt no paths."""
from __future__ import absolute_import

import sys

from mc import env
env.install('sys.setprofile', 'sys.getprofile', 'threading.setprofile',
            *env.CLOCKS)
from mc import sched  # before the code under test
from mc.core import Mismatch, expect, expect_equal, explore_sharded, Chooser

from profiling.sampling import SamplingProfiler
from profiling.sampling.samplers import TracingSampler
from profiling.tracing import TracingProfiler
from profiling.tracing.timers import ThreadTimer, Timer

INFO = {
    'technique': 'stateless model checking of the real profilers: all thread '
                 'schedules up to a preemption bound, with preemption points '
                 'before every bytecode which may touch shared state',
    'bounds': '2-3 threads with up to 4 events each; 1 preemption before any '
              'shared-state bytecode and, for some, 2 preemptions before '
              'any line (quick), 2 before any bytecode and 3 before any '
              'line (thorough, 1 and 2 for 3 threads); recording, stop() and restart races; tracing with '
              'process and thread timer and sampling with the tracing sampler',
    'assumptions': ['a switch happens between bytecodes only (GIL); dictionary '
                    'and list operations of built-in types are atomic',
                    'the interpreter delivers the events of a thread to the '
                    'profile function which the thread registered, and a new '
                    'thread registers that of threading.setprofile()'],
}


def f():
    pass


def g():
    pass


def h():
    pass


CODES = {'f': f.__code__, 'g': g.__code__, 'h': h.__code__}
NAMES = dict((c, n) for n, c in CODES.items())


class Frame(object):
    """A stand-in for a frame."""

    __slots__ = ('f_code', 'f_back', 'f_lineno', 'f_globals', 'f_locals')

    def __init__(self, code, back):
        self.f_code = code
        self.f_back = back
        self.f_lineno = 1
        self.f_globals = {}
        self.f_locals = {}


def base_code():
    pass


def frames_of(script, base):
    """[(event, frame, path)] of a script like 'f(g()g())'."""
    events, stack, path = [], [base], ()
    for ch in script:
        if ch in CODES:
            path += (ch,)
            stack.append(Frame(CODES[ch], stack[-1]))
            events.append(('call', stack[-1], path))
        elif ch == ')':
            events.append(('return', stack.pop(), path))
            path = path[:-1]
    assert not path
    return events


class World(object):
    """The profile functions and CPU clocks of the threads."""

    def __init__(self):
        self.hooks = {}
        self.thread_hook = None
        self.clocks = {}

    def me(self):
        t = sched.current()
        return t.index if t is not None else 'main'

    def setprofile(self, func):
        self.hooks[self.me()] = func

    def getprofile(self):
        return self.hooks.get(self.me())

    def thread_setprofile(self, func):
        self.thread_hook = func

    def clock(self, *args):
        return self.clocks.get(self.me(), 0.0)

    def targets(self):
        return dict((k, v) for k, v in {
            'sys.setprofile': self.setprofile,
            'sys.getprofile': self.getprofile,
            'threading.setprofile': self.thread_setprofile,
            'time.clock_gettime': self.clock,
            'time.thread_time': self.clock,
            'time.clock': lambda: 0.0, 'time.time': lambda: 0.0,
            'time.process_time': lambda: 0.0,
            'time.perf_counter': lambda: 0.0,
        }.items() if k in env.TRAMPOLINES)


def tree_of(stats):
    """{path: (hits, time)} of what was recorded below the root."""
    out = {}
    todo = [((), stats)]
    while todo:
        path, node = todo.pop()
        for child in node:
            p = path + (NAMES.get(child.code, child.name),)
            if p in out:
                raise Mismatch('path %r appears twice' % (p,))
            out[p] = (child.own_hits, child.deep_time)
            todo.append((p, child))
    return out


def make_tracing(timer):
    return lambda base: TracingProfiler(base_frame=base, timer=timer())


def make_sampling(base):
    return SamplingProfiler(base_frame=base, sampler=TracingSampler(1.0))


# name: (profiler factory, kind, scripts, scenario)
SCENARIOS = {}


def scenario(name, make, kind, scripts, race=None):
    SCENARIOS[name] = (make, kind, scripts, race)


for __name, __make in [('thread', make_tracing(ThreadTimer)),
                       ('process', make_tracing(Timer))]:
    scenario('tracing-%s-same' % __name, __make, 'tracing', ['f()', 'f()'])
    scenario('tracing-%s-nested' % __name, __make, 'tracing',
             ['f(g())', 'f(g())'])
    scenario('tracing-%s-mixed' % __name, __make, 'tracing',
             ['f(g())', 'g(f())'])
    scenario('tracing-%s-recursive' % __name, __make, 'tracing',
             ['f(f())', 'f()f()'])
    scenario('tracing-%s-three' % __name, __make, 'tracing',
             ['f()', 'f()', 'f()'])
    scenario('tracing-%s-stop' % __name, __make, 'tracing',
             ['f()', 'f(g())'], 'stop')
    scenario('tracing-%s-restart' % __name, __make, 'tracing',
             ['f()', 'f()f()'], 'restart')
scenario('sampling-same', make_sampling, 'sampling', ['f()', 'f()'])
scenario('sampling-nested', make_sampling, 'sampling', ['f(g())', 'f(g())'])
scenario('sampling-mixed', make_sampling, 'sampling', ['f(g())', 'g(f())'])
scenario('sampling-three', make_sampling, 'sampling', ['f()', 'f()', 'f()'])
scenario('sampling-stop', make_sampling, 'sampling', ['', 'f(g())'], 'stop')
scenario('sampling-restart', make_sampling, 'sampling', ['', 'f()f()'],
         'restart')


class Run(object):
    """One execution."""

    def __init__(self, name, chooser, granularity, states):
        self.make, self.kind, scripts, self.race = SCENARIOS[name]
        self.name = name
        self.world = World()
        self.base = Frame(base_code.__code__, None)
        self.profiler = self.make(self.base)
        self.sched = sched.Scheduler(chooser, granularity)
        self.sched.on_point = self.observe
        self.states = states
        self.events = [frames_of(s, self.base) for s in scripts]
        self.positions = [0] * len(scripts)
        # (path, kind) -> number of events which began / ended by now.
        self.log = []
        self.stopped = None
        self.started = None

    def observe(self, me):
        self.states.add((self.name, self.race, tuple(self.positions),
                         me.index))

    def deliver(self, frame, event):
        hook = self.world.hooks.get(self.world.me())
        if hook is not None:
            hook(frame, event, None)
            return True
        return False

    def body(self, index):
        def run():
            if index:
                # as a new thread does.
                if self.world.thread_hook is not None:
                    self.world.setprofile(self.world.thread_hook)
            else:
                # in the thread which started the session.
                self.world.hooks[0] = self.world.hooks.get('main')
            self.play(index)
            if self.race and index == 0:
                self.race_end()
        return run

    def play(self, index):
        duration = [1.0, 16.0, 256.0][index]
        for n, (event, frame, path) in enumerate(self.events[index]):
            # the time since the previous event.
            self.world.clocks[index] = (self.world.clocks.get(index, 0.0) +
                                        duration * (n + 1))
            self.positions[index] = 2 * n + 1
            self.log.append(('begin', index, n))
            self.deliver(frame, event)
            self.log.append(('end', index, n))
            self.positions[index] = 2 * n + 2

    def race_end(self):
        self.log.append(('begin', 0, 'stop'))
        self.profiler.stop()
        self.log.append(('end', 0, 'stop'))
        self.stopped = tree_of(self.profiler.stats)
        if self.race == 'restart':
            self.log.append(('begin', 0, 'start'))
            self.profiler.start()
            self.log.append(('end', 0, 'start'))
            self.log.append(('begin', 0, 'stop2'))
            self.profiler.stop()
            self.log.append(('end', 0, 'stop2'))
            self.stopped = tree_of(self.profiler.stats)

    def run(self):
        with env.patched(self.world.targets()):
            self.profiler.start()
            for x in range(len(self.events)):
                self.sched.spawn(self.body(x))
            self.sched.run()
            if not self.race:
                self.profiler.stop()
            self.check()

    def expected(self, counts):
        """{path: (hits, time)} when just these events are handled."""
        out = {}

        def touch(path):
            for x in range(1, len(path) + 1):
                out.setdefault(path[:x], [0, 0.0])
        for index, events in enumerate(self.events):
            duration = [1.0, 16.0, 256.0][index]
            clock, entered = 0.0, {}
            for n, (event, frame, path) in enumerate(events):
                clock += duration * (n + 1)
                if not counts(index, n):
                    continue
                if self.kind == 'sampling':
                    touch(path)
                    out[path][0] += 1
                elif event == 'call':
                    touch(path)
                    out[path][0] += 1
                    entered[id(frame)] = clock
                elif id(frame) in entered:
                    if 'thread' in self.name:
                        out[path][1] += clock - entered.pop(id(frame))
        return dict((k, tuple(v)) for k, v in out.items())

    def check(self):
        got = tree_of(self.profiler.stats)
        if not self.race:
            # every event was handled.
            expect_equal(got, self.with_void(self.expected(lambda i, n: True)),
                         'recorded tree')
            return
        expect_equal(got, self.stopped,
                     'the tree after stop() returned, when threads went on')
        order = dict((x, n) for n, x in enumerate(self.log))
        begin = lambda i, n: order[('begin', i, n)]
        end = lambda i, n: order[('end', i, n)]
        if self.race == 'restart':
            must = lambda i, n: (i != 0 and begin(i, n) > end(0, 'start') and
                                 end(i, n) < begin(0, 'stop2'))
            may = lambda i, n: (i != 0 and end(i, n) > begin(0, 'start') and
                                begin(i, n) < end(0, 'stop2'))
        else:
            must = lambda i, n: i == 0 or end(i, n) < begin(0, 'stop')
            may = lambda i, n: i == 0 or begin(i, n) < end(0, 'stop')
        low, high = self.expected(must), self.expected(may)
        for path in set(got) | set(low):
            hits = got.get(path, (0, 0.0))[0]
            lo = low.get(path, (0, 0.0))[0]
            hi = high.get(path, (0, 0.0))[0]
            expect(lo <= hits <= hi, 'hits of %r: %r, not within %r..%r',
                   path, hits, lo, hi)

    def with_void(self, tree):
        # the time of an absent frame is that of its nearest descendants.
        out = dict(tree)
        for path in sorted(tree, key=len, reverse=True):
            hits, time = tree[path]
            if hits == 0 and self.kind == 'tracing':
                out[path] = (0, sum(v[1] for k, v in out.items()
                                    if k[:-1] == path))
        return out


def run_schedule(ctx, name, granularity, chooser, seen):
    case = {'scenario': name, 'granularity': granularity,
            'choices': chooser.prefix}

    def body():
        run = Run(name, chooser, granularity, seen)
        try:
            run.run()
        finally:
            ctx.step(run.sched.steps)
            case['choices'] = trim(chooser.choices)
        ctx.outcome((name, sorted(tree_of(run.profiler.stats).items())))
    if chooser.duplicate:
        ctx.traces -= 1
    ctx.case(case, body)


def trim(choices):
    choices = list(choices)
    while choices and not choices[-1]:
        choices.pop()
    return choices


def run(ctx):
    def plan():
        for name in sorted(SCENARIOS):
            three = 'three' in name
            if ctx.quick:
                if three and 'process' in name:
                    continue
                yield name, 'opcode', 1
                if name.split('-')[-1] in ('same', 'stop') and \
                        'process' not in name:
                    yield name, 'line', 2
            else:
                yield name, 'opcode', 1 if three else 2
                yield name, 'line', 2 if three else 3

    def work(ctx, shard, n):
        seen = set()
        for name, granularity, bound in plan():
            for chooser in explore_sharded(
                    lambda c: run_schedule(ctx, name, granularity, c, seen),
                    shard, n, bound):
                pass
        for s in seen:
            ctx.state(s)
    ctx.shards(work)


def replay(ctx, case):
    run_schedule(ctx, case['scenario'], case['granularity'],
                 Chooser(case['choices']), set())
