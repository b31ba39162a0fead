# -*- coding: utf-8 -*-
"""C10: derived statistics and flattening conserve hits and time."""
from __future__ import absolute_import

import itertools

from mc import trees
from mc.core import expect, expect_equal


from profiling.stats import (
    FlatFrozenStatistics, FrozenStatistics, RecordingStatistics,
    spread_stats, VoidRecordingStatistics)

INFO = {
    'technique': 'exhaustive enumeration of all small statistics trees on the '
                 'real classes against recursive definitions',
    'bounds': 'all ordered trees up to 5 (quick) / 6 (thorough) nodes with '
              'hits and time present or absent at every node (distinct powers '
              'of 2), all labelings by functions which differ in one of name, '
              'file, line or module up to 4 / 5 nodes; frozen, recording and '
              'void statistics; chains and fans up to 3000 nodes',
    'assumptions': [],
}

KEYS = [('f', 'a.py', 1, 'a'), ('g', 'a.py', 1, 'a'), ('f', 'b.py', 1, 'a'),
        ('f', 'a.py', 2, 'a'), ('f', 'a.py', 1, 'b'), (None, 'a.py', 1, 'a'),
        ('f', 'a.py', 1, None)]
ROOT = (None, None, None, None)


def check_node(st, node):
    expect_equal(st.own_hits, node.hits, 'own_hits')
    expect_equal(st.deep_time, node.time, 'deep_time')
    expect_equal(st.deep_hits, node.deep_hits, 'deep_hits')
    expect_equal(st.own_time, node.own_time, 'own_time')
    if node.hits:
        expect_equal(st.own_time_per_call, node.own_time / node.hits,
                     'own_time_per_call')
        expect_equal(st.deep_time_per_call, node.time / node.hits,
                     'deep_time_per_call')
    else:
        expect_equal((st.own_time_per_call, st.deep_time_per_call),
                     (0.0, 0.0), 'times per call without calls')
    expect_equal(len(st), len(node.kids), 'number of children')


def check_walk(ctx, st, node, pairs, recording=False):
    """Every descendant once, parents before their children."""
    order = list(spread_stats(st))
    expect_equal(len(order), len(pairs) - 1, 'descendants')
    position = dict((id(x), n) for n, x in enumerate(order))
    expect_equal(len(position), len(order), 'different descendants')
    for s, n in pairs:
        for kid in s:
            expect(id(kid) in position, 'a descendant is missing')
            if s is not st:
                expect(position[id(s)] < position[id(kid)],
                       'a child before its parent')
    # walking selectively: children of those only which are spread.
    if len(order) <= 5:
        names = [s for s, __ in pairs[1:]]
        for mask in range(1 << len(names)):
            spreading = set(id(s) for i, s in enumerate(names)
                            if mask >> i & 1)
            got = []
            for s, spread in spread_stats(st, spreader=True):
                got.append(id(s))
                if id(s) in spreading:
                    spread()
            want = set()

            def visit(s):
                for kid in s:
                    want.add(id(kid))
                    if id(kid) in spreading:
                        visit(kid)
            visit(st)
            expect_equal(len(got), len(set(got)), 'different descendants')
            expect(set(got) == want, 'selective walk yields %d of %d',
                   len(got), len(want))
            ctx.step()


def check_flat(st, node):
    flat = FlatFrozenStatistics.flatten(st)
    want = {}
    for x in node.walk():
        w = want.setdefault(x.key, [0, 0, 0.0, 0.0])
        w[0] += x.hits
        w[1] += x.deep_hits
        w[2] += x.own_time
        w[3] += x.time
    got = {}
    for s in flat:
        key = (s.name, s.filename, s.lineno, s.module)
        expect(key not in got, 'function %r twice', key)
        got[key] = [s.own_hits, s.deep_hits, s.own_time, s.deep_time]
        expect_equal(list(s), [], 'children of a flat function')
        if s.own_hits:
            expect_equal(s.deep_time_per_call, s.deep_time / s.own_hits,
                         'deep time per call')
            expect_equal(s.own_time_per_call, s.own_time / s.own_hits,
                         'own time per call')
    expect_equal(got, want, 'flat (own hits, deep hits, own time, deep time)')
    expect_equal(len(flat), len(want), 'number of functions')
    expect_equal([flat.own_hits, flat.deep_hits, flat.own_time,
                  flat.deep_time],
                 [node.hits, node.deep_hits, node.own_time, node.time],
                 'flat root')
    expect_equal((flat.name, flat.filename, flat.lineno, flat.module),
                 node.key, 'flat root function')


def pair_up(st, node):
    """[(statistics, reference)], preorder, iteratively."""
    out, todo = [], [(st, node)]
    while todo:
        s, n = todo.pop()
        out.append((s, n))
        todo.extend(list(zip(list(s), n.kids))[::-1])
    return out


def run_case(ctx, kind, node):
    if kind == 'frozen':
        st = trees.build_frozen(node, FrozenStatistics)
    elif kind == 'recording':
        st = trees.build_recording(node, RecordingStatistics)
    pairs = pair_up(st, node)
    for s, n in pairs:
        check_node(s, n)
        ctx.step()
    check_walk(ctx, st, node, pairs)
    if kind == 'frozen':
        check_flat(st, node)
    ctx.state(node.spec())
    ctx.outcome(node.deep_hits)


def big_case(ctx, what, n):
    """Long chains (recursion) and wide fans."""
    root = FrozenStatistics(*(ROOT + (0, 0.0)))
    at = root
    for x in range(n):
        kid = FrozenStatistics('f%d' % (x % 7), 'a.py', 1, 'a', 1, 2.0)
        at.children.append(kid)
        if what == 'chain':
            kid.deep_time = float(2 * (n - x))
            at = kid
    root.deep_time = 2.0 * n
    expect_equal(root.deep_hits, n, 'deep hits')
    expect_equal(len(list(spread_stats(root))), n, 'descendants')
    flat = FlatFrozenStatistics.flatten(root)
    expect_equal(sum(s.own_hits for s in flat), n, 'flat hits')
    expect_equal(sum(s.own_time for s in flat), 2.0 * n, 'flat time')
    expect_equal(len(flat), min(7, n), 'functions')
    ctx.state((what, n))
    ctx.step(n)


def siblings_differ(node):
    names = [k.key[:3] for k in node.kids]
    return len(set(names)) == len(names) and \
        all(siblings_differ(k) for k in node.kids)


def cases(ctx):
    size = 5 if ctx.quick else 6
    two = [KEYS[0], KEYS[1]]
    # what's present at which node.
    for n in range(1, size + 1):
        for shape in trees.shapes(n):
            for mask in itertools.product(range(4), repeat=n):
                members = []
                for i, m in enumerate(mask):
                    members.append((ROOT if not i else
                                    two[(i + mask[0]) % 2],
                                    (m & 1) << i,
                                    float((m >> 1) << (2 * (n - i)))))
                yield 'frozen', trees.grow(shape, members)
    # the functions.
    for n in range(2, size):
        for shape in trees.shapes(n):
            for keys in itertools.product(KEYS, repeat=n - 1):
                members = [(ROOT, 0, 1024.0)]
                members += [(k, 1 << i, float(4 ** (n - i)))
                            for i, k in enumerate(keys)]
                yield 'frozen', trees.grow(shape, members)
    # recording ones.
    for n in range(1, size):
        for shape in trees.shapes(n):
            for keys in itertools.product(KEYS[:4], repeat=n - 1):
                for mask in itertools.product(range(2), repeat=n):
                    members = [(ROOT, 0, 0.0)]
                    members += [(k, m << i, float(m * 4 ** (n - i)))
                                for i, (k, m) in enumerate(zip(keys, mask))]
                    node = trees.grow(shape, members)
                    if siblings_differ(node):
                        yield 'recording', node


def run(ctx):
    def work(ctx, shard, n):
        for x, (kind, node) in enumerate(cases(ctx)):
            if x % n == shard:
                ctx.case({'kind': kind, 'tree': node.spec()}, run_case, ctx,
                         kind, node)
        bigs = [('chain', 300), ('fan', 3000), ('chain', 1500), ('fan', 50)]
        for x, (what, size) in enumerate(bigs):
            if x % n == shard:
                ctx.case({'big': [what, size]}, big_case, ctx, what, size)
    ctx.shards(work)


def replay(ctx, case):
    if 'big' in case:
        ctx.case(case, big_case, ctx, *case['big'])
    else:
        ctx.case(case, run_case, ctx, case['kind'],
                 trees.from_spec(case['tree']))
