# -*- coding: utf-8 -*-
"""C05: a session installs its hooks and leaves none behind."""
from __future__ import absolute_import

import itertools
import signal

from mc import world
from mc.core import expect, expect_equal, sequences

from profiling.remote.background import BackgroundProfiler
from profiling.sampling import SamplingProfiler
from profiling.sampling.samplers import ItimerSampler, Sampler, TracingSampler
from profiling.tracing import TracingProfiler
from profiling.tracing.timers import GreenletTimer, ThreadTimer, Timer
from profiling.utils import deferral

INFO = {
    'technique': 'bounded exhaustive fault and history enumeration on the '
                 'real profilers against a model of the hooked environment',
    'bounds': 'all prior states of the hooks (2 profile functions, 3 signal '
              'dispositions, 3 interval timers, 2 greenlet trace states) x '
              'all histories up to 3 (quick) / 5 (thorough) sessions, each '
              'with a fault at any environment call of its start or in its '
              'timer or sampler, and any way to end it; all deferral '
              'programs of up to 5 deferred calls',
    'assumptions': ['an environment call either fails and changes nothing or '
                    'succeeds', 'no asynchronous exception hits between an '
                    'installation and the registration of its removal'],
}


class Boom(Exception):
    pass


class BrokenTimer(Timer):

    def __init__(self, world, when):
        self.world, self.when = world, when

    def run(self, profiler):
        if 'start' in self.when:
            raise Boom()
        yield
        if 'stop' in self.when:
            raise Boom()


class BrokenSampler(ItimerSampler):

    def __init__(self, world, when):
        super(BrokenSampler, self).__init__()
        self.world, self.when = world, when

    def run(self, profiler):
        if 'start' in self.when:
            raise Boom()
        for x in super(BrokenSampler, self).run(profiler):
            yield x
        if 'stop' in self.when:
            raise Boom()


TRACING = ('profile', 'thread_profile')
SUBJECTS = {
    'tracing': (lambda w: TracingProfiler(), TRACING),
    'tracing, threads': (lambda w: TracingProfiler(timer=ThreadTimer()),
                         TRACING),
    'tracing, greenlets': (lambda w: TracingProfiler(timer=GreenletTimer()),
                           TRACING + ('greenlet_trace',)),
    'tracing, timer fails to start': (
        lambda w: TracingProfiler(timer=BrokenTimer(w, 'start')), TRACING),
    'tracing, timer fails to stop': (
        lambda w: TracingProfiler(timer=BrokenTimer(w, 'stop')), TRACING),
    'sampling, itimer': (
        lambda w: SamplingProfiler(sampler=ItimerSampler(0.25)),
        ('handler', 'itimer')),
    'sampling, tracing': (
        lambda w: SamplingProfiler(sampler=TracingSampler(0.25)), TRACING),
    'sampling, sampler fails to start': (
        lambda w: SamplingProfiler(sampler=BrokenSampler(w, 'start')),
        ('handler', 'itimer')),
    'sampling, sampler fails to stop': (
        lambda w: SamplingProfiler(sampler=BrokenSampler(w, 'stop')),
        ('handler', 'itimer')),
    'background tracing': (
        lambda w: background(TracingProfiler()), TRACING),
    'background sampling': (
        lambda w: background(SamplingProfiler(sampler=ItimerSampler(0.25))),
        ('handler', 'itimer')),
}


def background(profiler):
    b = BackgroundProfiler(profiler)
    b.prepare()
    return b


def foreign_profile(*args):
    pass


def foreign_handler(*args):
    pass


def foreign_trace(*args):
    pass


PRIOR_HANDLERS = {'default': signal.SIG_DFL, 'ignored': signal.SIG_IGN,
                  'custom': foreign_handler}
PRIOR_ITIMERS = {'off': (0.0, 0.0), 'once': (5.0, 0.0), 'on': (5.0, 2.0)}


class Frame(object):

    def __init__(self, code):
        self.f_code = code
        self.f_back = None
        self.f_lineno = 1
        self.f_globals = {}


def recorded():
    pass


def other():
    pass


def view(w):
    return {
        'profile': w.profile, 'thread_profile': w.thread_profile,
        'handler': w.getsignal(signal.SIGPROF),
        'itimer': w.getitimer(signal.ITIMER_PROF),
        'greenlet_trace': w.greenlet_trace,
        'others': (sorted((k, v) for k, v in w.itimers.items()
                          if k != signal.ITIMER_PROF),),
    }


def check_clean(before, after, installs, started, what):
    """Nothing of the session is left."""
    for key in sorted(after):
        want = [before[key]]
        if key == 'handler' and before[key] == signal.SIG_DFL and \
                'handler' in installs:
            want = [signal.SIG_IGN]
            if not started:
                # maybe it wasn't installed yet.
                want.append(signal.SIG_DFL)
        elif key in ('profile', 'thread_profile') and key in installs:
            want = [None]
            if not started:
                want.append(before[key])
        elif key == 'greenlet_trace' and key in installs:
            want = [None]
            if not started:
                want.append(before[key])
        expect(after[key] in want, '%s: %s is %r, want %r', what, key,
               after[key], want)


def hits(profiler, code):
    name = code.co_name
    return sum(st.own_hits for st in profiler.stats if st.name == name)


def check_installed(w, before, profiler, installs):
    now = view(w)
    recorder = getattr(profiler, 'profiler', profiler)
    for key in sorted(now):
        if key not in installs:
            expect_equal(now[key], before[key], 'running: %s' % key)
    frame = Frame(recorded.__code__)
    for key in installs:
        n = hits(recorder, recorded.__code__)
        w.thread_cpu += 1.0
        if key in ('profile', 'thread_profile'):
            expect(now[key] is not None, 'running without %s', key)
            now[key](frame, 'call', None)
            expect_equal(hits(recorder, recorded.__code__), n + 1,
                         'recorded by %s' % key)
        elif key == 'handler':
            expect(callable(now[key]), 'running without signal handler')
            now[key](signal.SIGPROF, frame)
            expect_equal(hits(recorder, recorded.__code__), n + 1,
                         'recorded by %s' % key)
        elif key == 'itimer':
            interval = recorder.sampler.interval
            expect_equal(now[key], (interval, interval), 'interval timer')
        else:
            expect(now[key] is not None, 'running without %s', key)


def run_session(ctx, w, profiler, installs, name, op):
    """One session: a start, maybe failing, and the end of it."""
    before = view(w)
    kind, fault = op
    refused = name.startswith(('tracing', 'background tracing')) and \
        before['profile'] is not None
    w.arm(fault)
    error = None
    try:
        if kind == 'with':
            try:
                with profiler:
                    w.disarm()
                    check_installed(w, before, profiler, installs)
                    raise Boom('body')
            finally:
                faulted = w.fail_at is not None and w.calls >= w.fail_at
                w.disarm()
        else:
            try:
                profiler.start()
            finally:
                faulted = w.fail_at is not None and w.calls >= w.fail_at
                w.disarm()
    except (Exception, KeyboardInterrupt) as exc:
        error = exc
    ctx.step()
    if refused:
        expect(type(error) is RuntimeError, 'start with another profile '
               'function registered raised %r', error)
        expect_equal(view(w), before, 'hooks after a refused start')
        return 'refused'
    if kind == 'with':
        if 'fails to start' in name or faulted:
            started = False
        else:
            started = True
            expect(isinstance(error, Boom), 'with raised %r', error)
        expect(not profiler.is_running(), 'still running')
        check_clean(before, view(w), installs, started, 'after with')
        return 'with'
    if error is not None:
        expect(faulted or 'fails to start' in name, 'start raised %r', error)
        expect(not profiler.is_running(), 'running after failed start')
        check_clean(before, view(w), installs, False, 'after failed start')
        return 'failed'
    check_installed(w, before, profiler, installs)
    if kind == 'start again':
        now = view(w)
        try:
            profiler.start()
        except RuntimeError:
            pass
        else:
            expect(False, 'started twice')
        expect_equal(view(w), now, 'hooks after a rejected start')
    if kind == 'meddle':
        # the program changes hooks of its own.
        if 'handler' in installs:
            w.handlers[int(signal.SIGPROF)] = foreign_handler
            w.itimers[int(signal.ITIMER_PROF)] = (7.0, 7.0)
        else:
            w.profile = foreign_profile
    try:
        profiler.stop()
    except Boom:
        expect('fails to stop' in name, 'stop raised')
    else:
        expect('fails to stop' not in name, 'stop raised nothing')
    expect(not profiler.is_running(), 'still running')
    check_clean(before, view(w), installs, True, 'after stop')
    return 'stopped'


def run_case(ctx, name, prior, history):
    make, installs = SUBJECTS[name]
    w = world.HookWorld()
    with w.active():
        w.profile = foreign_profile if prior[0] == 'foreign' else None
        w.handlers[int(signal.SIGPROF)] = PRIOR_HANDLERS[prior[1]]
        w.itimers[int(signal.ITIMER_PROF)] = PRIOR_ITIMERS[prior[2]]
        w.itimers[int(signal.ITIMER_REAL)] = (3.0, 3.0)
        w.greenlet_trace = foreign_trace if prior[3] == 'foreign' else None
        profiler = make(w)
        for op in history:
            out = run_session(ctx, w, profiler, installs, name, op)
            ctx.outcome((name, out))
            ctx.state((name, prior, op, out,
                       sorted((k, repr(type(v)))
                              for k, v in view(w).items())))


def deferral_case(ctx, n, failing, body_fails):
    log = []

    def deferred(x):
        log.append(x)
        if x in failing:
            raise Boom(x)
    error = None
    try:
        with deferral() as defer:
            for x in range(n):
                defer(deferred, x)
            if body_fails:
                raise KeyError('body')
    except Exception as exc:
        error = exc
    ctx.step(n)
    ctx.state(('deferral', n, failing, body_fails))
    expect_equal(log, list(range(n))[::-1], 'deferred calls')
    expect((error is not None) == bool(failing or body_fails),
           'raised %r', error)


def cases(ctx):
    sessions = 3 if ctx.quick else 4
    for name in sorted(SUBJECTS):
        n = 3 if 'greenlets' in name else 2
        if 'fails' in name:
            n = 0
        ops = [('start', None), ('with', None), ('start again', None),
               ('meddle', None)]
        ops += [('start', x + 1) for x in range(n)]
        ops += [('with', x + 1) for x in range(n)]
        greenlet = ['none', 'foreign'] if 'greenlets' in name else ['none']
        for prior in itertools.product(
                ['none', 'foreign'], sorted(PRIOR_HANDLERS),
                sorted(PRIOR_ITIMERS), greenlet):
            # many sessions of one profiler.
            many = [(op,) * 25 for op in ops] + [tuple(ops) * 4]
            for history in itertools.chain(sequences(ops, sessions), many):
                if prior[0] == 'foreign' and 'tracing' in name and \
                        len(history) > 1:
                    continue
                yield name, prior, history


def run(ctx):
    def work(ctx, shard, n):
        for x, (name, prior, history) in enumerate(cases(ctx)):
            if x % n == shard:
                ctx.case({'subject': name, 'prior': prior,
                          'history': history},
                         run_case, ctx, name, prior, history)
        if shard == 0:
            for n in (0, 1, 2, 3, 4, 5):
                for failing in itertools.chain.from_iterable(
                        itertools.combinations(range(n), k)
                        for k in range(n + 1)):
                    for body_fails in (False, True):
                        ctx.case({'deferral': [n, failing, body_fails]},
                                 deferral_case, ctx, n, failing, body_fails)
            for n in (40, 400):
                for failing in ((), (0,), (n - 1,), (3, n // 2),
                                tuple(range(min(n, 100)))):
                    for body_fails in (False, True):
                        ctx.case({'deferral': [n, failing, body_fails]},
                                 deferral_case, ctx, n, failing, body_fails)
    ctx.shards(work)


def replay(ctx, case):
    if 'deferral' in case:
        n, failing, body_fails = case['deferral']
        ctx.case(case, deferral_case, ctx, n, tuple(failing), body_fails)
    else:
        ctx.case(case, run_case, ctx, case['subject'],
                 tuple(case['prior']),
                 tuple(tuple(x) for x in case['history']))
