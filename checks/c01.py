# -*- coding: utf-8 -*-
"""C01: tracing counts every call on its exact call path."""
from __future__ import absolute_import

from mc import programs
from mc.core import expect_equal
from mc.tracing_driver import execute, nslots, windows_of

INFO = {
    'technique': 'stateless exploration of all programs and session placements on the real code against a reference model',
    'bounds': 'all call trees up to 4 calls (quick) / 5 (thorough), all '
              'placements of one session, two sessions on smaller trees; chains '
              'and fans of up to 240 calls with 6 session placements, 700 '
              'calls of one function, up to 65 sessions in a program',
    'assumptions': ['one thread; interleavings are the subject of C03'],
}


def run_case(ctx, spec, windows):
    results, expected, steps = execute(spec, windows)
    ctx.step(steps)
    expect_equal(len(results), len(expected), 'number of sessions')
    for (tree, __), (want, __) in zip(results, expected):
        got, want = programs.only_hits(tree), programs.only_hits(want)
        ctx.state(programs.freeze(want))
        ctx.outcome(sum(1 for _ in walk(want)))
        expect_equal(got, want, 'recorded calls')


def walk(tree):
    for k, (h, kids) in tree.items():
        yield h
        for x in walk(kids):
            yield x


def cases(ctx):
    # (size, labels, modes, sessions)
    if ctx.quick:
        plan = [(1, 'fglm', 'rxyz', 1), (2, 'fglm', 'rxyz', 1),
                (3, 'fglm', 'rxyz', 1), (4, 'fg', 'ry', 1),
                (4, 'fm', 'x', 1),
                (1, 'f', 'ry', 3), (2, 'fg', 'rxy', 2), (3, 'fg', 'ry', 2)]
    else:
        plan = [(1, 'fglm', 'rxyz', 1), (2, 'fglm', 'rxyz', 1),
                (3, 'fglm', 'rxyz', 1), (4, 'fglm', 'ry', 1),
                (4, 'fg', 'rxyz', 1), (5, 'fg', 'ry', 1), (5, 'fm', 'x', 1),
                (1, 'f', 'ry', 3), (2, 'fglm', 'rxyz', 2), (3, 'fg', 'rxy', 2),
                (2, 'fg', 'r', 3), (4, 'fg', 'r', 2)]
    for size, labels, modes, sessions in plan:
        for spec in programs.trees(size, labels, modes,
                                   'y' if modes == 'y' else 'r'):
            for windows in windows_of(nslots(spec), sessions):
                yield spec, windows
    # generators at the root.
    for spec in programs.trees(2, 'fg', 'ry', 'y'):
        for windows in windows_of(nslots(spec), 1):
            yield spec, windows


def deep_spec(what, n, labels, mode):
    if what == 'fan':
        return ('f', 'r', tuple((labels[x % len(labels)], mode, ())
                                for x in range(n)))
    spec = None
    for x in range(n):
        root = x == n - 1 and mode == 'x'
        spec = (labels[(n - 1 - x) % len(labels)], 'r' if root else mode,
                () if spec is None else (spec,))
    return spec


def deep_cases(ctx):
    for what, n in (('chain', 24), ('chain', 70), ('chain', 240), ('fan', 70),
                    ('fan', 240)):
        for labels in ('f', 'fg', 'fm', 'lfg'):
            for mode in 'ryx':
                if n > 100 and (mode != 'r' or len(labels) > 1):
                    continue
                end = 2 * n - 1
                for window in ((-1, end), (0, end), (n // 2, end),
                               (n - 1, end), (-1, n), (3, n + 5)):
                    yield what, n, labels, mode, (window,)
    # many calls of one function, many sessions.
    for labels in ('f', 'fg'):
        n = 700 if ctx.quick else 2500
        yield 'fan', n, labels, 'r', ((-1, 2 * n - 1),)
        for what, n in (('fan', 130), ('chain', 130)):
            for d in (1, 2, 5):
                yield what, n, labels, 'r', tuple(
                    (k, k + d) for k in range(-1, n - d, 2 * d))


def deep_case(ctx, what, n, labels, mode, windows):
    run_case(ctx, deep_spec(what, n, labels, mode), windows)


def run(ctx):
    def work(ctx, shard, n):
        for x, args in enumerate(deep_cases(ctx)):
            if x % n == shard:
                ctx.case({'deep': args}, deep_case, ctx, *args)
        for x, (spec, windows) in enumerate(cases(ctx)):
            if x % n == shard:
                ctx.case({'program': spec, 'windows': windows},
                         run_case, ctx, spec, windows)
    ctx.shards(work)


def tuplify(x):
    return tuple(tuplify(y) for y in x) if isinstance(x, list) else x


def replay(ctx, case):
    if 'deep' in case:
        ctx.case(case, deep_case, ctx, *tuplify(case['deep']))
        return
    ctx.case(case, run_case, ctx, tuplify(case['program']),
             tuplify(case['windows']))
