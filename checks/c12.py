# -*- coding: utf-8 -*-
"""C12: every sort key totally orders any statistics and can be inverted."""
from __future__ import absolute_import

import functools
import itertools

from mc import env  # noqa: F401
from mc.core import expect, expect_equal

from profiling import sortkeys
from profiling.sampling import SamplingStatisticsTable
from profiling.stats import (
    FlatFrozenStatistics, FrozenStatistics, RecordingStatistics)
from profiling.tracing import TracingStatisticsTable

INFO = {
    'technique': 'exhaustive enumeration of all small sibling sequences on '
                 'the real classes against independent comparators',
    'bounds': 'all sequences of up to 3 (quick) / 4 (thorough) siblings out '
              'of up to 26 different statistics (names and modules absent or '
              'present, hits and times zero, equal and different, with and '
              'without children), all 9 keys, their inverses and double '
              'inverses; frozen, flat and recording statistics; sequences of '
              'up to 6 of 4 statistics (stability), of 30 and 300 statistics',
    'assumptions': [],
}

KEYS = ['by_name', 'by_module', 'by_function', 'by_deep_hits', 'by_own_hits',
        'by_deep_time', 'by_own_time', 'by_deep_time_per_call',
        'by_own_time_per_call']


# -- the reference: members = (name, module, hits, time, child hits, child time)

def ascending(a, b):
    return (a > b) - (a < b)


def text(a, b):
    """Ascending, absent first."""
    if a is None or b is None:
        return (a is not None) - (b is not None)
    return ascending(a, b)


def chain(*cmps):
    def cmp(a, b):
        for c in cmps:
            r = c(a, b)
            if r:
                return r
        return 0
    return cmp


def descending(value):
    return lambda a, b: ascending(value(b), value(a))


def deep_hits(m):
    return m[2] + m[4]


def own_time(m):
    return max(0.0, m[3] - m[5])


def deep_per_call(m):
    if not deep_hits(m):
        return m[3]
    return m[3] / m[2] if m[2] else 0.0


def own_per_call(m):
    return own_time(m) / m[2] if m[2] else own_time(m)


CMPS = {
    'by_name': lambda a, b: text(a[0], b[0]),
    'by_module': lambda a, b: text(a[1], b[1]),
    'by_function': chain(lambda a, b: text(a[1], b[1]),
                         lambda a, b: text(a[0], b[0])),
    'by_deep_hits': descending(deep_hits),
    'by_own_hits': descending(lambda m: m[2]),
    'by_deep_time': descending(lambda m: m[3]),
    'by_own_time': chain(descending(own_time), descending(lambda m: m[3])),
    'by_deep_time_per_call': descending(deep_per_call),
    'by_own_time_per_call': chain(descending(own_per_call),
                                  descending(deep_per_call)),
}

#: The names and modules.
TEXTS = [(n, m, 1, 1.0, 0, 0.0)
         for n in (None, 'a', 'b', 'A') for m in (None, 'a', 'm', 'm.a')]
#: The numbers.
NUMBERS = [('f', 'm', h, t, ch, ct)
           for h in (0, 1, 3) for t in (0.0, 2.0, 3.0)
           for ch, ct in ((0, 0.0), (2, 1.0), (0, 4.0))]
MIXED = [(None, None, 0, 0.0, 0, 0.0), ('f', None, 2, 4.0, 0, 0.0),
         (None, 'm', 1, 4.0, 1, 4.0), ('f', 'm', 2, 4.0, 0, 1.0)]


def make(kind, m):
    name, module, hits, time, child_hits, child_time = m
    if kind == 'flat':
        return FlatFrozenStatistics(name, 'x.py', 1, module, hits,
                                    hits + child_hits, own_time(m), time)
    if kind == 'frozen':
        st = FrozenStatistics(name, 'x.py', 1, module, hits, time)
        if child_hits or child_time:
            st.children.append(FrozenStatistics('c', 'x.py', 1, 'c',
                                                child_hits, child_time))
        return st
    ns = {}
    exec(compile('def %s(): pass' % (name or 'f'), 'x.py', 'exec'), ns)
    code = ns[name or 'f'].__code__
    if name is None:
        code = compile('0', 'x.py', 'exec')
    st = RecordingStatistics(code)
    st.own_hits, st.deep_time = hits, time
    if child_hits or child_time:
        child = st.ensure_child(make.__code__)
        child.own_hits, child.deep_time = child_hits, child_time
    return st


def parent_of(kind, kids):
    if kind == 'recording':
        parent = RecordingStatistics()
        for x, kid in enumerate(kids):
            parent.add_child(x, kid)
        return parent
    parent = FrozenStatistics()
    parent.children = list(kids)
    return parent


def run_case(ctx, kind, members, keys):
    members = [tuple(m) for m in members]
    kids = [make(kind, m) for m in members]
    parent = parent_of(kind, kids)
    index = dict((id(k), n) for n, k in enumerate(kids))
    for key in keys:
        cmp = CMPS[key]
        order = getattr(sortkeys, key)
        forward = sorted(range(len(members)), key=functools.cmp_to_key(
            lambda a, b: cmp(members[a], members[b])))
        backward = sorted(range(len(members)), key=functools.cmp_to_key(
            lambda a, b: cmp(members[b], members[a])))
        for o, want, what in ((order, forward, key),
                              (~order, backward, '~' + key),
                              (~~order, forward, '~~' + key)):
            got = [index[id(s)] for s in parent.sorted(o)]
            expect_equal(got, want, 'order %s of %r' % (what, members))
            ctx.step()
        ctx.state((kind, key, forward, backward))
        ctx.outcome(key)
        if key == 'by_deep_time':
            expect_equal([index[id(s)] for s in parent.sorted()], forward,
                         'default order')


def tables(ctx):
    """The keys of the columns are the ones which name what they show."""
    want = {'FUNCTION': ['by_function'], 'CALLS': ['by_own_hits'],
            'OWN': ['by_own_time'], 'DEEP': ['by_deep_time'],
            '/CALL': ['by_own_time_per_call', 'by_deep_time_per_call']}
    samplings = {'FUNCTION': ['by_function'], 'OWN': ['by_own_hits'],
                 'DEEP': ['by_deep_hits']}
    for table, keys, default in (
            (TracingStatisticsTable, want, 'by_deep_time'),
            (SamplingStatisticsTable, samplings, 'by_deep_hits')):
        got = {}
        for name, __, __, order in table.columns:
            if order is not None:
                found = [k for k in KEYS if getattr(sortkeys, k) is order]
                expect_equal(len(found), 1, 'keys of column %s' % name)
                got.setdefault(name, []).extend(found)
        expect_equal(got, keys, 'keys of the columns')
        expect(table.order is getattr(sortkeys, default), 'initial order')
        ctx.step()


TEXT_KEYS = KEYS[:3]
NUMBER_KEYS = KEYS[3:]


def cases(ctx):
    n = 3 if ctx.quick else 4
    for k in range(0, n + 1):
        for seq in itertools.product(TEXTS, repeat=k):
            yield 'frozen', seq, TEXT_KEYS
        if k == 4:
            continue
        for seq in itertools.product(NUMBERS, repeat=k):
            yield 'frozen', seq, NUMBER_KEYS
            if k < 3:
                yield 'flat', seq, NUMBER_KEYS
                yield 'recording', seq, NUMBER_KEYS
    for k in range(0, 7):
        for seq in itertools.product(MIXED, repeat=k):
            yield 'frozen', seq, KEYS
            if k < 5:
                yield 'flat', seq, KEYS
    # many siblings.
    for size in (30, 300):
        for pool, keys in ((TEXTS, TEXT_KEYS), (NUMBERS, NUMBER_KEYS),
                           (MIXED, KEYS)):
            for step in (1, 5, 7, 11):
                seq = tuple(pool[x * step % len(pool)] for x in range(size))
                yield 'frozen', seq, keys
                yield 'flat', seq, keys
    for seq in itertools.product(TEXTS[::4], repeat=2):
        # its module is found by inspection: none.
        yield 'recording', [(m[0], None) + m[2:] for m in seq], TEXT_KEYS


def run(ctx):
    ctx.case({'tables': 1}, tables, ctx)

    def work(ctx, shard, n):
        for x, (kind, seq, keys) in enumerate(cases(ctx)):
            if x % n == shard:
                ctx.case({'kind': kind, 'stats': seq, 'keys': keys},
                         run_case, ctx, kind, seq, keys)
    ctx.shards(work)


def replay(ctx, case):
    if 'tables' in case:
        ctx.case(case, tables, ctx)
    else:
        ctx.case(case, run_case, ctx, case['kind'], case['stats'],
                 case['keys'])
