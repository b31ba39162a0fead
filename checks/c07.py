# -*- coding: utf-8 -*-
"""C07: every sample is counted once at the path of the sampled frame."""
from __future__ import absolute_import

from collections import Counter
import itertools
import pickle
import signal
import sys

from mc import world
from mc.core import expect, expect_equal

from profiling.sampling import SamplingProfiler
from profiling.sampling.samplers import ItimerSampler, TracingSampler

INFO = {
    'technique': 'bounded exhaustive enumeration of sample histories on the '
                 'real profiler and samplers against a multiset of stacks',
    'bounds': 'all sequences of up to 4 (quick) / 5 (thorough) samples of all '
              'stacks up to depth 3 over 2 functions and up to depth 2 over 3 '
              'functions, two of which have equal code in different files; '
              'with base frame, base code and without; recorded by signals, '
              'profile events and directly; two sessions; stacks of 300 '
              'frames, 2700 samples, 40 sessions; a further signal at every '
              'line that runs while up to 3 (quick) / 4 samples are taken, at '
              'every pair of lines of 1 sample, and at all lines at once',
    'assumptions': ['the sampled frame is above the base frame'],
}


def make(name, filename, body='pass'):
    ns = {}
    exec(compile('def %s():\n    %s\n' % (name, body), filename, 'exec'), ns)
    return ns[name].__code__


CODES = {'f': make('f', 'one.py'), 'g': make('g', 'one.py'),
         'F': make('f', 'two.py'), 'b': make('base', 'zero.py'),
         'o': make('outer', 'zero.py')}
NAMES = dict(((c.co_name, c.co_filename), n) for n, c in CODES.items())


class Frame(object):

    def __init__(self, code, back=None):
        self.f_code = code
        self.f_back = back
        self.f_lineno = 1
        self.f_globals = {}


def stack_of(path, base):
    frame = base
    for ch in path:
        frame = Frame(CODES[ch], frame)
    return frame


def tree(stats):
    out = {}
    todo = [((), stats)]
    while todo:
        path, node = todo.pop()
        for child in node:
            p = path + (NAMES[(child.name, child.filename)],)
            expect(p not in out, 'path %r appears twice', p)
            out[p] = (child.own_hits, child.deep_hits)
            todo.append((p, child))
    return out


def expected(stacks):
    out = {}
    for stack in stacks:
        for x in range(1, len(stack) + 1):
            own, deep = out.get(stack[:x], (0, 0))
            out[stack[:x]] = (own + (x == len(stack)), deep + 1)
    return out


BASES = ('frame', 'code', 'none')


def run_case(ctx, how, base_kind, sessions):
    w = world.HookWorld()
    with w.active():
        outer = Frame(CODES['o'])
        base = Frame(CODES['b'], outer)
        kwargs = {}
        if base_kind == 'frame':
            kwargs['base_frame'] = base
        elif base_kind == 'code':
            kwargs['base_code'] = CODES['b']
        if how == 'events':
            sampler = TracingSampler(1.0)
        else:
            sampler = ItimerSampler(1.0)
        profiler = SamplingProfiler(sampler=sampler, **kwargs)
        for samples in sessions:
            profiler.start()
            for path in samples:
                frame = stack_of(path, base)
                if how == 'direct':
                    profiler.sample(frame)
                elif how == 'events':
                    w.thread_cpu += 1.0
                    w.profile(frame, 'call', None)
                else:
                    w.handlers[int(signal.SIGPROF)](signal.SIGPROF, frame)
            profiler.stop()
            ctx.step(len(samples))
            paths = samples
            if base_kind == 'none':
                paths = [('o', 'b') + p for p in samples]
            want = expected(paths)
            stats = profiler.result()[0]
            ctx.state(sorted(want.items()))
            expect_equal(tree(stats), want, '(own, deep) hits')
            expect_equal(stats.deep_hits, len(samples), 'total samples')
            if len(samples) > 2:
                # freezing is slow: see C11 for more of it.
                continue
            frozen = pickle.loads(pickle.dumps(stats, 2))
            expect_equal(tree(frozen), want, 'frozen (own, deep) hits')
            expect_equal(frozen.deep_hits, len(samples), 'total samples')
    ctx.outcome(len(want))


def paths(labels, depth):
    return [p for n in range(1, depth + 1)
            for p in itertools.product(labels, repeat=n)]


def cases(ctx):
    big, small = paths('fg', 3), paths('fgF', 2)
    n = 4 if ctx.quick else 5
    for k in range(0, n + 1):
        for samples in itertools.product(big, repeat=k):
            yield 'signals', 'frame', (samples,)
    for k in range(1, n + 1):
        for samples in itertools.product(small, repeat=k):
            yield 'events', 'frame', (samples,)
    for how in ('signals', 'events', 'direct'):
        for base in BASES:
            for k in range(0, n - 1):
                for samples in itertools.product(small, repeat=k):
                    yield how, base, (samples,)
    for a in itertools.product(small, repeat=2):
        for b in itertools.product(paths('fg', 2), repeat=2):
            yield 'signals', 'code', (a, b)
    # many samples, deep stacks, many sessions.
    for how in ('signals', 'events', 'direct'):
        for base in BASES:
            for size in (70, 300) if ctx.quick else (70, 300, 900):
                yield how, base, ((('f',) * size,) * 3,)
                yield how, base, ((('f', 'g', 'F') * (size // 3),
                                   ('f', 'g', 'F') * (size // 6), ('f',)),)
            yield how, base, ((('f',), ('f', 'g'), ('g',)) * 900,)
            yield how, base, ((('f',), ('f', 'g')),) * 40
            yield how, base, (tuple(paths('fgF', 4)) * 2,)
    # signals arrive while a sample is taken.
    for k in range(1, 4 if ctx.quick else 5):
        for samples in itertools.product(paths('fg', 2 if k < 3 else 1),
                                         repeat=k):
            yield 'nested', 'all', (samples,)
    yield 'nested', 'all', ((('f',) * 30,) * 2,)
    # the base function is called again: just what's above it counts.
    for k in range(1, n):
        for samples in itertools.product(paths('fb', 3), repeat=k):
            if any(p[-1] == 'b' for p in samples):
                continue
            yield 'recursive base', 'code', (samples,)


def recursive_base(ctx, how, base_kind, sessions):
    base = Frame(CODES['b'], Frame(CODES['o']))
    profiler = SamplingProfiler(base_code=CODES['b'])
    for samples in sessions:
        for path in samples:
            profiler.sample(stack_of(path, base))
        cut = []
        for path in samples:
            while 'b' in path:
                path = path[path.index('b') + 1:]
            cut.append(path)
        ctx.step(len(samples))
        ctx.state(('recursive', sorted(expected(cut).items())))
        expect_equal(tree(profiler.stats), expected(cut), '(own, deep) hits')


class Signals(object):
    """Delivers further signals at chosen lines of the handler of a signal."""

    def __init__(self, handler, at):
        self.handler = handler
        self.at = at  # 'every' or numbers of lines
        self.lines = 0
        self.nested = []

    def deliver(self, frame):
        here = sys._getframe()

        def trace(real, event, arg):
            if event == 'line':
                if self.at == 'every' or self.lines in self.at:
                    self.interrupt(real, here, frame)
                self.lines += 1
            return trace
        sys.settrace(trace)
        try:
            self.handler(signal.SIGPROF, frame)
        finally:
            sys.settrace(None)

    def interrupt(self, real, here, frame):
        # the handler interrupted the frame of the program.
        codes = []
        while real is not here:
            codes.append(real.f_code)
            real = real.f_back
        for code in reversed(codes):
            frame = Frame(code, frame)
        self.nested.append(frame)
        self.handler(signal.SIGPROF, frame)


def key_path(frame, base):
    out = []
    while frame is not base:
        out.append((frame.f_code.co_name, frame.f_code.co_filename))
        frame = frame.f_back
    return tuple(reversed(out))


def within(path):
    """Whether a path leads through a call by the sampling function."""
    sample = SamplingProfiler.sample
    code = getattr(sample, '__wrapped__', sample).__code__
    return (code.co_name, code.co_filename) in path[:-1]


def nested_case(ctx, samples, at):
    """Signals arrive while samples are taken.  They sampled nothing of the
    program.  (Just before and after that they are as any others.)
    """
    w = world.HookWorld()
    with w.active():
        base = Frame(CODES['b'], Frame(CODES['o']))
        profiler = SamplingProfiler(base_frame=base,
                                    sampler=ItimerSampler(1.0))
        profiler.start()
        signals = Signals(w.handlers[int(signal.SIGPROF)], at)
        want = []
        for path in samples:
            frame = stack_of(path, base)
            want.append(key_path(frame, base))
            signals.deliver(frame)
        profiler.stop()
        stats = profiler.result()[0]
        got = {}
        todo = [((), stats)]
        while todo:
            path, node = todo.pop()
            for child in node:
                p = path + ((child.name, child.filename),)
                expect(p not in got, 'path %r appears twice', p)
                got[p] = (child.own_hits, child.deep_hits)
                todo.append((p, child))
        nested = Counter(key_path(f, base) for f in signals.nested)
        for p, (own, __) in got.items():
            if p in nested and own:
                expect(own <= nested[p], '%d samples at %r of %d', own, p,
                       nested[p])
                expect(not within(p), 'a signal is counted as a sample of '
                       '%r though it arrived while a sample was taken', p)
                want.extend([p] * own)
        expect_equal(got, expected(want), '(own, deep) hits though signals '
                     'arrive while samples are taken')
        expect_equal(stats.deep_hits, len(want), 'total samples')
        ctx.step(len(samples) + len(signals.nested))
        ctx.state(('nested', samples, at))
    return signals.lines


def nested(ctx, samples, at):
    if at != 'all':
        nested_case(ctx, samples, at)
        return
    lines = nested_case(ctx, samples, ())
    nested_case(ctx, samples, 'every')
    for x in range(lines):
        nested_case(ctx, samples, (x,))
    if len(samples) == 1 or not ctx.quick:
        for xs in itertools.combinations(range(lines), 2):
            nested_case(ctx, samples, xs)


def dispatch(ctx, how, base, sessions):
    if how == 'nested':
        nested(ctx, sessions[0], base)
        return
    f = recursive_base if how == 'recursive base' else run_case
    f(ctx, how, base, sessions)


def run(ctx):
    def work(ctx, shard, n):
        for x, (how, base, sessions) in enumerate(cases(ctx)):
            if x % n == shard:
                ctx.case({'how': how, 'base': base, 'sessions': sessions},
                         dispatch, ctx, how, base, sessions)
    ctx.shards(work)


def replay(ctx, case):
    sessions = tuple(tuple(tuple(p) for p in s) for s in case['sessions'])
    ctx.case(case, dispatch, ctx, case['how'], case['base'], sessions)
