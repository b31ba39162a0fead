# -*- coding: utf-8 -*-
"""C22: the table shows every visible row in order with its true values."""
from __future__ import absolute_import

import itertools

from mc import env  # noqa: F401
from mc import trees, viewref
from mc.core import expect, expect_equal, HarnessError
from mc.screen import capture

from profiling.sampling import SamplingProfiler
from profiling.stats import (
    FrozenStatistics, RecordingStatistics, VoidRecordingStatistics)
from profiling.tracing import TracingProfiler
from profiling.viewer import StatisticsViewer

INFO = {
    'technique': 'exhaustive enumeration of small statistics trees, every row '
                 'unfolded by key presses on the real viewer, the rendered '
                 'table compared with reference rows in each order and layout',
    'bounds': 'all ordered forests up to 3 (quick) / 4 (thorough) nodes with '
              'functions and metrics out of 12 combinations (2 nodes: all), '
              '3 / 5 (3 nodes) or 3 (4 nodes); frozen and recording statistics; '
              'the tracing and the sampling table, every sort column, both '
              'layouts, session CPU times of zero and not; one larger tree '
              'at widths from 60 to 140 columns; trees of 30 to 84 rows and up '
              'to 30 levels in 4 orders of the metrics',
    'assumptions': ['a text which is too wide for its column may be cut at '
                    'either side', 'functions of the flat layout which are '
                    'equal in the chosen order may come in any order'],
}

CLASSES = {'tracing': TracingProfiler, 'sampling': SamplingProfiler}
ROOT = (None, None, None, None)
SIZE = (110, 14)

F1 = ('f', 'a.py', 1, 'm')
F2 = ('g', '/x/b.py', 22, None)
F3 = (None, 'c.py', 1, 'mod')
F4 = (None, '/y/d.py', 1, None)
F5 = ('f', 'a.py', 1, 'm2')
#: functions with metrics; F1 may recur and repeat.
PAIRS = [(F1, 1, 1.0), (F1, 3, 2.0), (F1, 0, 0.0), (F2, 1, 0.5),
         (F2, 2, 2.0), (F3, 1, 1.0), (F4, 0, 0.25), (F5, 1, 1.0),
         (F2, 1500, 90.0), (F1, 7, 0.000125), (F2, 0, 2.0), (F5, 999, 700.0)]
FEW = [PAIRS[0], PAIRS[4], PAIRS[5], PAIRS[6], PAIRS[7]]
THREE = [PAIRS[0], PAIRS[1], PAIRS[4]]


def forests(n):
    return [s for s in trees.forests(n)]


def cases(ctx):
    plan = [(0, PAIRS), (1, PAIRS), (2, PAIRS if not ctx.quick else
                                     PAIRS[:9]),
            (3, FEW if not ctx.quick else THREE)]
    if not ctx.quick:
        plan.append((4, THREE))
        plan.append((4, [PAIRS[1], PAIRS[4], PAIRS[6]]))
    for n, pairs in plan:
        for shape in forests(n):
            for members in itertools.product(pairs, repeat=n):
                yield 'frozen', shape, members
    # recording ones: siblings have different codes.
    rec = [(('f', 'a.py', 1, None), 2, 1.0), (('g', 'b.py', 2, None), 0, 0.0),
           (('h', 'b.py', 3, None), 1, 3.0)]
    for n in (1, 2, 3):
        for shape in forests(n):
            for members in itertools.product(rec, repeat=n):
                yield 'recording', shape, members


def distinct_siblings(node):
    keys = [k.key for k in node.kids]
    return len(set(keys)) == len(keys) and \
        all(distinct_siblings(k) for k in node.kids)


def settle_void(node):
    """The times of absent frames are those of their nearest recorded
    descendants.
    """
    def nearest(n):
        total = 0.0
        for k in n.kids:
            total += k.time if k.hits or k.time else nearest(k)
        return total
    times = [(n, nearest(n)) for n in node.walk() if not n.hits and not n.time]
    for n, t in times:
        n.time = t


def press(viewer, key, size):
    viewer.widget.keypress(size, key)


def unfold_all(viewer, size, count):
    """Unfolds every row by the keys."""
    press(viewer, 'down', size)
    for __ in range(4 * count + 4):
        screen = capture(viewer.widget, size)
        focused = [x for x, row in enumerate(screen.rows) if row.focused]
        expect_equal(len(focused), 1, 'focused rows of %r' % screen.rows)
        if screen.rows[focused[0]].icon == '+':
            press(viewer, 'right', size)
        elif focused[0] == len(screen.rows) - 1:
            return
        else:
            press(viewer, 'down', size)
    raise HarnessError('cannot unfold all')


def check_nested(screen, root, kind, column, cpu, total, size):
    """Every path once beneath its caller, siblings in order."""
    rows = iter(screen.rows)
    width = screen.spans(size[0])[1]

    def visit(items, depth):
        for item in sorted(items,
                           key=lambda i: i.sort_key(kind, column)):
            row = next(rows, None)
            expect(row is not None, 'the row of %s is missing', item.func)
            expect_equal((row.indent, row.icon),
                         (depth, '-' if item.kids else ' '),
                         'indent and icon of %s' % item.func)
            viewref.check_row(row, item, kind, cpu, total, screen.widths,
                              width - depth - 2)
            visit(item.kids, depth + 1)
    visit(root.kids, 0)
    extra = next(rows, None)
    expect(extra is None, 'an additional row: %r', extra)


def check_flat(screen, root, kind, column, cpu, total, size):
    """Every function once, in order."""
    items = sorted(root.kids, key=lambda i: i.sort_key(kind, column))
    expect_equal(len(screen.rows), len(items), 'number of rows')
    rows = list(screen.rows)
    width = screen.spans(size[0])[1] - 2
    for __, group in itertools.groupby(
            items, key=lambda i: i.sort_key(kind, column)):
        group = list(group)
        block, rows = rows[:len(group)], rows[len(group):]
        for row in block:
            expect_equal((row.indent, row.icon), (0, ' '),
                         'indent and icon of %s' % row.func)
            for x, item in enumerate(group):
                if viewref.row_fits(row, item, kind, cpu, total,
                                    screen.widths, width):
                    break
            else:
                x = 0
            viewref.check_row(row, group.pop(x), kind, cpu, total,
                              screen.widths, width)


def run_case(ctx, source, shape, members, kind, cpu, size=SIZE):
    members = [(ROOT, 0, 0.0)] + [tuple(m) for m in members]
    node = trees.grow(shape, members)
    if source == 'recording':
        if not distinct_siblings(node):
            return
        stats = trees.build_recording(node, RecordingStatistics, None,
                                      VoidRecordingStatistics)
        settle_void(node)
    else:
        stats = trees.build_frozen(node, FrozenStatistics)
    viewer = StatisticsViewer()
    viewer.set_profiler_class(CLASSES[kind])
    viewer.set_result(stats, cpu, 2.0)
    viewer.activate()
    total = node.deep_hits
    layouts = [(viewref.nested(node), check_nested),
               (viewref.flat(node), check_flat)]
    if len(members) > 1:
        unfold_all(viewer, size, len(members))
    columns = viewref.SORTABLE[kind]
    x = columns.index(viewref.INITIAL[kind])
    for root, check in layouts:
        for __ in columns:
            screen = capture(viewer.widget, size)
            expect_equal(screen.kind, kind, 'table')
            check(screen, root, kind, columns[x % len(columns)], cpu, total,
                  size)
            press(viewer, ']', size)
            x += 1
            ctx.step()
            ctx.state((kind, [(r.func, r.cells) for r in screen.rows]))
        press(viewer, '\\', size)
    ctx.outcome((kind, source, len(members) - 1))


BIG = ((((),),), ((), (), ((),)), ())
BIG_MEMBERS = [(F1, 1, 1.0), (F2, 12, 8.0), (F3, 1, 1.5),
               (F5, 123456, 59.96875), (F1, 3, 2.0), (F4, 1, 0.0009765625),
               (('a_function_with_a_very_long_name_which_is_cut', 'z.py', 1,
                 'package.sub.module'), 1, 1.0),
               ((u'na\xefve', 'z.py', 5, None), 1, 900.0),
               (('last', 'z.py', 12345, 'zz'), 1000000, 0.5)]


def large():
    fan = ((),) * 60
    yield fan
    yield (fan,)
    chain = ()
    for __ in range(30):
        chain = (chain,)
    yield chain
    yield (chain, ((),) * 5, ()) + (((),) * 3,) * 8
    yield ((((),) * 4,) * 4,) * 4


def many(n, order):
    """Functions, their hits and times in some order."""
    out = []
    for x in range(n):
        y = (x * 37 + 11) % 101 if order == 'mixed' else \
            n - x if order == 'down' else x if order == 'up' else 3
        out.append((('f%02d' % (x * 29 % n), 'm%d.py' % (x % 7), x + 1,
                     'mod' if x % 2 else None), y, y * 0.25))
    return out


def count(shape):
    return sum(1 + count(s) for s in shape)


def run(ctx):
    assert count(BIG) == len(BIG_MEMBERS), count(BIG)

    def work(ctx, shard, n):
        x = 0
        for source, shape, members in cases(ctx):
            for kind in sorted(CLASSES):
                for cpu in (4.0, 0.0) if kind == 'tracing' and \
                        len(members) == 1 else (4.0,):
                    x += 1
                    if x % n == shard:
                        ctx.case([source, shape, members, kind, cpu],
                                 run_case, ctx, source, shape, members, kind,
                                 cpu)
        for width in range(60, 141, 1 if not ctx.quick else 4):
            for kind in sorted(CLASSES):
                x += 1
                if x % n == shard:
                    ctx.case(['frozen', BIG, BIG_MEMBERS, kind, 100.0,
                              [width, 14]],
                             run_case, ctx, 'frozen', BIG, BIG_MEMBERS, kind,
                             100.0, (width, 14))
        for shape in large():
            for order in ('mixed', 'down', 'up', 'same'):
                members = many(count(shape), order)
                for kind in sorted(CLASSES):
                    if order != 'mixed' and ctx.quick and \
                            (kind == 'tracing' or count(shape) > 61):
                        continue
                    x += 1
                    if x % n == shard:
                        ctx.case(['frozen', shape, members, kind, 100.0,
                                  [200, 100]],
                                 run_case, ctx, 'frozen', shape, members,
                                 kind, 100.0, (200, 100))
    ctx.shards(work)


def tuplify(x):
    return tuple(tuplify(y) for y in x) if isinstance(x, list) else x


def replay(ctx, case):
    case = tuplify(case)
    ctx.case(case, run_case, ctx, *case)
