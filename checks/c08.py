# -*- coding: utf-8 -*-
"""C08: the tracing sampler honours the interval for each thread."""
from __future__ import absolute_import

import _thread

from mc import world
from mc.core import expect, expect_equal, sequences

from profiling.sampling import SamplingProfiler
from profiling.sampling.samplers import TracingSampler

_start = _thread.start_new_thread
_lock = _thread.allocate_lock

INFO = {
    'technique': 'bounded exhaustive enumeration of event histories of real '
                 'threads (with real identifier reuse) under virtual '
                 'per-thread CPU clocks',
    'bounds': 'all histories up to 5 (quick) / 6 (thorough) of events after '
              '0, 1/2 or 1 interval of CPU time in 3 threads, thread ends and '
              'session restarts; a history of 25000 samples over 60 ended '
              'threads with 2 living ones; 12000 events of up to 300 living '
              'threads',
    'assumptions': ['events of threads are handled one at a time (C03)'],
}


class Frame(object):

    def __init__(self, code):
        self.f_code = code
        self.f_back = None
        self.f_lineno = 1
        self.f_globals = {}


def recorded():
    pass


class Worker(object):
    """A real thread which runs what it's told, one thing at a time."""

    def __init__(self):
        self.go, self.done = _lock(), _lock()
        self.go.acquire()
        self.done.acquire()
        self.func = None
        self.error = None
        self.ended = False
        _start(self._run, ())
        self.done.acquire()

    def _run(self):
        self.ident = _thread.get_ident()
        self.done.release()
        while True:
            self.go.acquire()
            if self.func is None:
                break
            try:
                self.func()
            except BaseException as exc:
                self.error = exc
            self.done.release()
        self.ended = True
        self.done.release()

    def __call__(self, func):
        self.func = func
        self.go.release()
        self.done.acquire()
        if self.error is not None:
            raise self.error

    def end(self):
        self.func = None
        self.go.release()
        self.done.acquire()


KINDS = ['call', 'return', 'c_call', 'c_return', 'c_exception']


class Harness(object):

    INTERVAL = 4.0

    def __init__(self):
        self.world = world.HookWorld()
        self.own = {}
        self.total = 0.0
        self.me = 0
        self.workers = {}
        self.sampled = {}
        self.hits = 0
        self.frame = Frame(recorded.__code__)
        self.dead = set()
        self.reused = 0
        self.events = 0

    def clock(self, which=None):
        import time
        if which is not None and which != time.CLOCK_THREAD_CPUTIME_ID:
            return 100.0 + self.total
        return self.own.get(self.me, 0.0)

    def active(self):
        targets = self.world.targets()
        targets['time.clock_gettime'] = self.clock
        if 'time.thread_time' in targets:
            targets['time.thread_time'] = self.clock
        for name in ('time.clock', 'time.process_time'):
            if name in targets:
                targets[name] = lambda: 100.0 + self.total
        return world.env.patched(targets)

    def make(self):
        self.sampler = TracingSampler(self.INTERVAL)
        self.profiler = SamplingProfiler(sampler=self.sampler)
        self.profiler.start()
        self.main_hook = self.world.profile
        self.thread_hook = self.world.thread_profile
        self.hooks = {0: self.main_hook}

    def count(self):
        return sum(st.own_hits for st in self.profiler.stats)

    def event(self, i, dt):
        if i and i not in self.workers:
            self.workers[i] = Worker()
            self.hooks[i] = self.thread_hook
            self.own.pop(i, None)
            self.sampled.pop(i, None)
            if self.workers[i].ident in self.dead:
                self.reused += 1
        self.me = i
        self.own[i] = self.own.get(i, 0.0) + dt
        self.total += dt
        due = self.own[i] - self.sampled.get(i, 0.0) >= self.INTERVAL
        before = self.count()
        hook = self.hooks[i]
        # whatever the event is.
        self.events += 1
        kind = KINDS[(self.events + len(self.workers)) % len(KINDS)]
        if i:
            self.workers[i](lambda: hook(self.frame, kind, None))
        else:
            hook(self.frame, kind, None)
        got = self.count() - before
        if due:
            self.sampled[i] = self.own[i]
            self.hits += 1
        expect_equal(got, int(due),
                     'samples at an event of thread %d, %g of CPU time after '
                     'the previous sample' %
                     (i, self.own[i] - (self.sampled.get(i, 0.0)
                                        if not due else 0.0)))

    def end(self, i):
        w = self.workers.pop(i, None)
        if w is None:
            return
        w.end()
        self.dead.add(w.ident)

    def restart(self):
        self.profiler.stop()
        self.profiler.start()
        # the threads keep their hook.
        self.hooks[0] = self.main_hook = self.world.profile
        self.thread_hook = self.world.thread_profile

    def close(self):
        for i in sorted(self.workers):
            self.end(i)
        if self.profiler.is_running():
            self.profiler.stop()


def run_case(ctx, history):
    h = Harness()
    with h.active():
        h.make()
        try:
            for op in history:
                if op[0] == 'event':
                    h.event(op[1], op[2] * h.INTERVAL)
                elif op[0] == 'end':
                    h.end(op[1])
                else:
                    h.restart()
                ctx.step()
        finally:
            h.close()
    ctx.state((tuple(sorted((k, v - h.sampled.get(k, 0.0))
                            for k, v in h.own.items())), history[-1]))
    ctx.outcome((h.hits, h.reused))


def long_case(ctx, n):
    """Many samples and ended threads."""
    h = Harness()
    with h.active():
        h.make()
        try:
            for x in range(n):
                h.event(0, h.INTERVAL / 2)
                h.event(1, h.INTERVAL)
                h.event(1, 0.0)
                if x < 60:
                    h.event(2, h.INTERVAL * 1000)
                    h.end(2)
                ctx.step(3)
            left = 0
            for value in vars(h.sampler).values():
                if isinstance(value, (dict, set, list, tuple, frozenset)):
                    left += len([x for x in value if x in h.dead])
                    expect(len(value) < 40,
                           '%d entries are kept for ended threads',
                           len(value))
            ctx.state(('long', n))
            # the id of one may be used by a thread that lives.
            expect(left <= 2, '%d ended threads are not discarded', left)
        finally:
            h.close()


def crowd_case(ctx, rounds, living):
    """Many living threads, some of which are replaced."""
    h = Harness()
    with h.active():
        h.make()
        try:
            for x in range(rounds):
                for i in range(living):
                    h.event(i, h.INTERVAL * (0, .5, 1, .25)[(x + i * 3) % 4])
                if x % 3 == 2:
                    h.end(1 + x % (living - 1))
                if x == rounds // 2:
                    h.restart()
                ctx.step(living)
            ctx.state(('crowd', rounds, living))
            ctx.outcome(('crowd', h.hits > 0, h.reused > 0))
        finally:
            h.close()


OPS = [('event', i, dt) for i in (0, 1, 2) for dt in (0.0, 0.5, 1.0)]
OPS += [('end', 1), ('end', 2), ('restart',)]


def cases(ctx):
    n = 5 if ctx.quick else 6
    for history in sequences(OPS, n):
        used = set()
        ok = True
        for op in history:
            if op[0] == 'event':
                if op[1] == 2 and 1 not in used:
                    # threads 1 and 2 are alike: 1 comes first.
                    ok = False
                used.add(op[1])
                if op[2] == 0.0 and len(history) == n:
                    ok = False
            elif op[0] == 'end' and op[1] not in used:
                ok = False
        if ok and history[-1][0] == 'event':
            yield history


def run(ctx):
    def work(ctx, shard, n):
        for x, history in enumerate(cases(ctx)):
            if x % n == shard:
                ctx.case({'history': history}, run_case, ctx, history)
        if shard == 0:
            size = 13000 if ctx.quick else 40000
            ctx.case({'long': size}, long_case, ctx, size)
        for x, args in enumerate([(300, 40), (100, 120), (2000, 5),
                                  (30, 300)]):
            if x % n == shard:
                ctx.case({'crowd': args}, crowd_case, ctx, *args)
    ctx.shards(work)


def replay(ctx, case):
    if 'crowd' in case:
        ctx.case(case, crowd_case, ctx, *case['crowd'])
    elif 'long' in case:
        ctx.case(case, long_case, ctx, case['long'])
    else:
        ctx.case(case, run_case, ctx,
                 tuple(tuple(x) for x in case['history']))
