# -*- coding: utf-8 -*-
"""C02: tracing times equal time spent in calls, without profiler overhead."""
from __future__ import absolute_import

from checks import c01, c06
from mc import programs
from mc.core import expect_equal, sequences
from mc.tracing_driver import execute, nslots, windows_of

INFO = {
    'technique': 'stateless exploration of all programs, session placements and cost profiles on the real code under a virtual clock',
    'bounds': 'all call trees up to 4 calls (quick) / 5 (thorough) with a '
              'distinct duration (power of 2) for every program point, all '
              'placements of one session, two sessions on smaller trees, '
              'event processing costs (0,0) (3,0) (0,5) (3,5) in units far '
              'below the durations; chains and fans of 70 calls with 17 '
              'sessions, 300 calls of a function; all interleavings of calls in 3 greenlets '
              'up to 6 / 7 operations with a greenlet timer',
    'assumptions': ['virtual timer: every duration is exactly representable, '
                    'so times are compared for equality'],
}

COSTS = [(0.0, 0.0), (0.0625, 0.0), (0.0, 0.03125), (0.0625, 0.03125)]


COST = 0.0078125


def run_case(ctx, spec, windows, costs):
    results, expected, steps = execute(spec, windows, costs)
    ctx.step(steps)
    expect_equal(len(results), len(expected), 'number of sessions')
    for (tree, cpu), (want, want_cpu) in zip(results, expected):
        got, want = programs.only_times(tree), programs.only_times(want)
        ctx.state((programs.freeze(want), costs))
        ctx.outcome(len(want))
        expect_equal(got, want, 'times')
        expect_equal(cpu, want_cpu, 'total CPU time')


def cases(ctx):
    if ctx.quick:
        plan = [(1, 'fl', 'rxyz', 2), (2, 'fl', 'rxyz', 1),
                (3, 'fg', 'rxy', 1), (4, 'f', 'ry', 1), (4, 'fg', 'r', 1),
                (2, 'f', 'ry', 2)]
    else:
        plan = [(1, 'fglm', 'rxyz', 2), (2, 'fglm', 'rxyz', 1),
                (3, 'fgm', 'rxyz', 1), (4, 'fg', 'rxy', 1), (5, 'fg', 'r', 1),
                (5, 'f', 'ry', 1), (2, 'fg', 'rxy', 2), (3, 'f', 'ry', 2)]
    for size, labels, modes, sessions in plan:
        for spec in programs.trees(size, labels, modes, 'ry'):
            for windows in windows_of(nslots(spec), sessions):
                for costs in COSTS:
                    yield spec, windows, costs
    # many calls, many sessions.
    for labels in ('f', 'fg'):
        for mode in 'ry':
            for what, n in (('fan', 300 if ctx.quick else 1500),
                            ('fan', 70), ('chain', 70)):
                spec = c01.deep_spec(what, n, labels, mode)
                for costs in COSTS[::3]:
                    yield spec, ((-1, 2 * n - 1),), costs
                    if n == 70:
                        yield spec, tuple((k, k + 2)
                                          for k in range(-1, 66, 4)), costs


def run(ctx):
    def work(ctx, shard, n):
        for x, (spec, windows, costs) in enumerate(cases(ctx)):
            if x % n == shard:
                ctx.case({'program': spec, 'windows': windows,
                          'costs': costs},
                         run_case, ctx, spec, windows, costs)
        # in greenlets with a greenlet timer.
        for x, history in enumerate(
                sequences(c06.PROFILED_OPS, 6 if ctx.quick else 7)):
            if x % n == shard and ('return',) in history:
                ctx.case({'contexts': history}, c06.profiled_case, ctx,
                         history, COST)
    ctx.shards(work)


def tuplify(x):
    return tuple(tuplify(y) for y in x) if isinstance(x, list) else x


def replay(ctx, case):
    if 'contexts' in case:
        ctx.case(case, c06.profiled_case, ctx, tuplify(case['contexts']), COST)
        return
    ctx.case(case, run_case, ctx, tuplify(case['program']),
             tuplify(case['windows']), tuplify(case['costs']))
