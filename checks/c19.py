# -*- coding: utf-8 -*-
"""C19: the background profiler hands over without loss or deadlock."""
from __future__ import absolute_import

from mc import env
env.install('os.kill', 'signal.signal', 'signal.getsignal',
            'signal.pthread_kill', 'signal.raise_signal', *env.CLOCKS)
from mc import sched  # before the code under test
from mc.core import Chooser, expect, expect_equal, explore_sharded

from profiling.profiler import Profiler
from profiling.remote.background import BackgroundProfiler

INFO = {
    'technique': 'stateless model checking of the real background profiler: '
                 'all schedules of both threads and of the signal delivery '
                 'up to a preemption bound',
    'bounds': '1 to 3 sessions in all combinations of failures at starting '
              'and stopping the wrapped profiler, and 40 of which every 2nd '
              'or 3rd fails (1 preemption); preemptions before any '
              'bytecode which may touch shared state and any operation of a '
              'synchronization primitive: 2 (quick) / 3 (thorough); the '
              'signal arrives at any later point of the main thread, also '
              'inside its handler',
    'assumptions': ['a signal that is sent stays pending until the main '
                    'thread executes bytecode again; equal pending signals '
                    'are delivered once',
                    'the main thread does not end before the background '
                    'thread'],
}


class Boom(Exception):
    pass


class Interrupt(BaseException):
    """Such as a KeyboardInterrupt at the main thread."""


class Wrapped(Profiler):

    def __init__(self, fails, error):
        super(Wrapped, self).__init__()
        self.error = error
        self.fails = set(fails)
        self.log = []
        self.n = 0

    def thread(self):
        t = sched.current()
        return t.name if t is not None else None

    def run(self):
        self.n += 1
        n = self.n
        self.log.append(('start', n, self.thread()))
        if ('start', n) in self.fails:
            raise self.error('start')
        yield
        self.log.append(('stop', n, self.thread()))
        if ('stop', n) in self.fails:
            raise self.error('stop')


ERRORS = {'exception': Boom, 'interrupt': Interrupt}


class SignalScheduler(sched.Scheduler):
    """Delivers a pending signal at any point of the main thread."""

    def __init__(self, run, *args, **kwargs):
        super(SignalScheduler, self).__init__(*args, **kwargs)
        self.harness = run

    def point(self, label=''):
        super(SignalScheduler, self).point(label)
        if self.atomic or self.killing:
            return
        me = sched.current()
        if me is not None and me.name == 'main' and self.harness.pending:
            if self.chooser(2, 'signal', 1):
                self.harness.deliver()


class Run(object):

    def __init__(self, chooser, fails, sessions, signum, granularity, error):
        self.wrapped = Wrapped(fails, ERRORS[error])
        self.signum = signum
        self.profiler = BackgroundProfiler(self.wrapped, signum)
        self.handlers = {}
        self.pending = False
        self.done = False
        self.sent = 0
        self.handled = 0
        self.sessions = sessions
        self.sched = SignalScheduler(self, chooser, granularity)

    # -- environment

    def signal(self, signum, handler):
        old = self.handlers.get(int(signum), 'previous')
        self.handlers[int(signum)] = handler
        return old

    def kill(self, pid, signum):
        self.send(signum)

    def send(self, signum):
        expect_equal(int(signum), int(self.profiler.signum), 'signal sent')
        self.sent += 1
        t = sched.current()
        self.pending = True
        if t is not None:
            t.sched.point('kill')

    def deliver(self):
        self.pending = False
        self.handled += 1
        try:
            self.handlers[int(self.profiler.signum)](self.profiler.signum,
                                                     None)
        except (Boom, Interrupt):
            # it's raised in the program which is being profiled.
            pass

    def targets(self):
        t = {'os.kill': self.kill, 'signal.signal': self.signal,
             'signal.getsignal': lambda n: self.handlers.get(int(n)),
             'signal.pthread_kill': self.kill,
             'signal.raise_signal': self.send}
        return dict((k, v) for k, v in t.items() if k in env.TRAMPOLINES)

    # -- threads

    def main(self):
        while True:
            self.sched.block(lambda: self.pending or self.done, 'idle')
            if self.pending:
                self.deliver()
            elif self.done:
                return

    def background(self):
        try:
            for n in range(self.sessions):
                self.session()
        finally:
            self.done = True

    def session(self):
        p, w = self.profiler, self.wrapped
        before = list(w.log)
        n = w.n + 1
        raised = self.call(p.start)
        expect_equal(w.log, before + [('start', n, 'main')],
                     'what happened by the time start() returned')
        failed = ('start', n) in w.fails
        expect_equal(w.is_running(), not failed,
                     'the wrapped profiler is running')
        if failed:
            if raised:
                return
            # it isn't started: nothing to stop.
            self.call(p.stop)
            expect_equal(w.log, before + [('start', n, 'main')],
                         'what happened after a start which failed')
            return
        expect(not raised, 'start() raised %r', raised)
        expect(p.is_running(), 'is not running after start()')
        self.call(p.stop, ('stop', n) in w.fails)
        expect_equal(w.log, before + [('start', n, 'main'),
                                      ('stop', n, 'main')],
                     'what happened by the time stop() returned')
        expect(not p.is_running(), 'is running after stop()')

    def call(self, f, may_fail=True):
        try:
            f()
        except (Boom, RuntimeError) as exc:
            if not may_fail:
                raise
            return exc

    def run(self):
        with env.patched(self.targets()):
            previous = self.profiler.prepare()
            expect_equal(previous, 'previous', 'result of prepare()')
            expect_equal(list(self.handlers), [int(self.profiler.signum)],
                         'handled signals')
            if self.signum is not None:
                expect_equal(int(self.profiler.signum), self.signum,
                             'signal number')
            self.sched.spawn(self.main, 'main')
            self.sched.spawn(self.background, 'background')
            self.sched.run()
            expect_equal(self.handled, self.sent, 'handled signals')


def fail_sets(sessions):
    points = [(w, n) for n in range(1, sessions + 1)
              for w in ('start', 'stop')]
    out = [()]
    for n in range(1, sessions + 1):
        out = [o + x for o in out
               for x in ((), (('start', n),), (('stop', n),))]
    assert all(p in points for o in out for p in o)
    return out


def scenarios(ctx):
    """(fails, sessions, signum, granularity, error, bound)"""
    more = 0 if ctx.quick else 1
    for sessions in (1, 2):
        for fails in fail_sets(sessions):
            yield fails, sessions, None, 'opcode', 'exception', 2 + more
            if fails:
                yield fails, sessions, None, 'line', 'interrupt', 2 + more
    for fails in fail_sets(3):
        yield fails, 3, None, 'line', 'exception', 1 + more
    yield (), 1, 10, 'opcode', 'exception', 1
    yield (), 3, 15, None, 'exception', 3 + more
    # many sessions.
    yield (), 40, None, None, 'exception', 1
    for what in ('start', 'stop'):
        for every in (2, 3):
            yield (tuple((what, n) for n in range(1, 41) if n % every == 0),
                   40, None, None, 'exception', 1 if every == 2 else 0)
    yield (), 40, None, 'line', 'exception', 0


def run_schedule(ctx, scenario, chooser):
    fails, sessions, signum, granularity, error = scenario
    case = {'fails': fails, 'sessions': sessions, 'signum': signum,
            'granularity': granularity, 'error': error, 'choices': []}

    def body():
        run = Run(chooser, *scenario)
        try:
            run.run()
        finally:
            choices = list(chooser.choices)
            while choices and not choices[-1]:
                choices.pop()
            case['choices'] = choices
            ctx.step(run.sched.steps)
            if not chooser.duplicate:
                ctx.state((scenario, run.wrapped.log, tuple(choices)))
                ctx.outcome(len(run.wrapped.log))
    if chooser.duplicate:
        # it counts in another shard.
        ctx.traces -= 1
    ctx.case(case, body)


def run(ctx):
    def work(ctx, shard, n):
        for scenario in scenarios(ctx):
            bound = scenario[-1]
            for __ in explore_sharded(
                    lambda chooser: run_schedule(ctx, scenario[:-1], chooser),
                    shard, n, bound):
                pass
    ctx.shards(work)


def replay(ctx, case):
    fails = tuple(tuple(x) for x in case['fails'])
    run_schedule(ctx, (fails, case['sessions'], case['signum'],
                       case['granularity'], case['error']), Chooser(case['choices']))
