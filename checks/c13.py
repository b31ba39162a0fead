# -*- coding: utf-8 -*-
"""C13: the recording tree behaves as a map from code to statistics."""
from __future__ import absolute_import

import itertools

from mc import env  # noqa: F401
from mc.core import bfs, expect, expect_equal

from profiling.profiler import Profiler
from profiling.stats import RecordingStatistics, VoidRecordingStatistics

INFO = {
    'technique': 'exhaustive enumeration of operation sequences and '
                 'explicit-state search with history replay on the real '
                 'classes against a map model',
    'bounds': 'all sequences of up to 3 (quick) / 4 (thorough) of 26 '
              'operations over 3 codes, two of which are equal code of '
              'different files, and states reachable by up to 5 / 7 '
              'operations at two levels; roots of recording and absent '
              'frames and of a profiler',
    'assumptions': [],
}


def make(name, filename):
    ns = {}
    exec(compile('def %s():\n    pass\n' % name, filename, 'exec'), ns)
    return ns[name].__code__


CODES = {'a': make('f', 'one.py'), 'A': make('f', 'two.py'),
         'b': make('g', 'one.py')}
NEVER = make('never', 'one.py')


class Model(object):

    def __init__(self, void, hits=0, time=0.0):
        self.void = void
        self._hits = hits
        self._time = time
        self.kids = {}
        self.real = None

    @property
    def hits(self):
        return 0 if self.void else self._hits

    @property
    def time(self):
        if not self.void:
            return self._time
        return sum(k.time for k in self.kids.values())

    def canon(self):
        return (self.void, self.hits, self._time if not self.void else None,
                [(c, k.canon()) for c, k in sorted(self.kids.items())])


def compare(model, stats, code='a'):
    expect(model.real is None or model.real is stats,
           'another object than before')
    model.real = stats
    expect_equal(isinstance(stats, VoidRecordingStatistics), model.void,
                 'is of an absent frame')
    expect_equal(stats.own_hits, model.hits, 'own hits')
    expect_equal(stats.deep_time, model.time, 'time')
    expect_equal(len(stats), len(model.kids), 'length')
    for c, code in CODES.items():
        expect_equal(code in stats, c in model.kids, 'membership of %s' % c)
        if c in model.kids:
            kid = stats.get_child(code)
            expect(kid.code is code, 'code of the child')
            compare(model.kids[c], kid)
        else:
            try:
                stats.get_child(code)
            except KeyError:
                pass
            else:
                expect(False, 'found a child which is not in')
    expect(NEVER not in stats, 'never added')
    want = sorted(id(k.real) for k in model.kids.values())
    expect(sorted(id(s) for s in stats) == want, 'iteration')
    expect(sorted(id(s) for s in stats.children) == want, 'children')
    expect(bool(len(stats)) == bool(list(stats)), 'emptiness')


def apply_op(model, stats, op, profiler=None):
    """Applies an operation at both."""
    what, c = op[0], op[1] if len(op) > 1 else None
    code = CODES.get(c)
    if what.startswith('sub-'):
        # at a child.
        if c not in model.kids:
            return False
        return apply_op(model.kids[c], stats.get_child(code),
                        (what[4:],) + op[2:])
    if what in ('ensure', 'rec', 'void'):
        cls = {'ensure': None, 'rec': RecordingStatistics,
               'void': VoidRecordingStatistics}[what]
        args = (code,) if cls is None else (code, cls)
        got = stats.ensure_child(*args)
        void = model.void if cls is None else what == 'void'
        kid = model.kids.get(c)
        if kid is None:
            kid = model.kids[c] = Model(void)
        elif kid.void and not void:
            # the frame was absent until now: nothing is lost.
            kid._time, kid.void, kid.real = kid.time, False, got
        compare(kid, got)
        expect(stats.get_child(code) is got, 'ensured another child')
    elif what == 'add':
        # a recorded one takes the place of what was there before.
        new = RecordingStatistics(code)
        new.own_hits = 5
        stats.add_child(code, new)
        model.kids[c] = Model(False, 5)
        model.kids[c].real = new
    elif what in ('remove', 'discard', 'exclude'):
        f = {'remove': stats.remove_child, 'discard': stats.discard_child,
             'exclude': profiler and profiler.exclude_code}[what]
        if f is None:
            return False
        try:
            f(code)
        except KeyError:
            expect(what == 'remove' and c not in model.kids, 'KeyError')
        else:
            expect(what != 'remove' or c in model.kids, 'no KeyError')
        model.kids.pop(c, None)
    elif what == 'clear':
        stats.clear()
        model.kids.clear()
        model._hits, model._time = 0, 0.0
    elif what == 'hit':
        # what recording does.
        stats.own_hits += 1
        stats.deep_time += 0.5
        if not model.void:
            model._hits += 1
            model._time += 0.5
    else:
        raise ValueError(what)
    return True


BASIC = [(w, c) for w in ('ensure', 'rec', 'void', 'add', 'remove', 'discard')
         for c in 'aAb'] + [('clear',), ('hit',)]
SUBS = [('sub-hit', c) for c in 'aA'] + \
    [('sub-' + w, 'a', d) for w in ('rec', 'void', 'remove') for d in 'aA'] + \
    [('sub-sub-hit', 'a', 'a'), ('sub-sub-rec', 'a', 'a', 'b'),
     ('sub-clear', 'a')]
EXCLUDES = [('exclude', c) for c in 'aAb']


class Null(Profiler):
    def run(self):
        yield


def play(ctx, root, history):
    """Replays a history.  Returns the canonical state of the end, or None if
    it isn't possible.
    """
    profiler = None
    if root == 'profiler':
        profiler = Null()
        stats = profiler.stats
    elif root == 'void':
        stats = VoidRecordingStatistics(CODES['b'])
    else:
        stats = RecordingStatistics(CODES['b'])
    model = Model(root == 'void')
    compare(model, stats)
    for op in history:
        if not apply_op(model, stats, tuple(op), profiler):
            return None
        compare(model, stats)
        ctx.step()
    return model.canon()


def plain_case(ctx, root, history):
    state = play(ctx, root, history)
    if state is not None:
        ctx.state((root, state))
        ctx.outcome(len(state[3]))


def upgrade_time_case(ctx, times):
    """An absent frame's time goes through absent frames to the recorded ones.
    """
    stats = VoidRecordingStatistics(CODES['a'])
    at, want = stats, 0.0
    for x, t in enumerate(times):
        kid = at.ensure_child(CODES['b'], RecordingStatistics)
        kid.deep_time = t
        below = kid.ensure_child(CODES['a'], RecordingStatistics)
        below.deep_time = t / 2
        want += t
        expect_equal(stats.deep_time, want, 'time')
        at = at.ensure_child(CODES['A'], VoidRecordingStatistics)
        ctx.step()
    expect_equal(stats.own_hits, 0, 'hits')
    expect_equal(stats.own_time, 0, 'own time')
    ctx.state(times)


def run(ctx):
    depth = 3 if ctx.quick else 4
    deep = 5 if ctx.quick else 7
    alphabet = BASIC + EXCLUDES + SUBS[:3]

    def work(ctx, shard, n):
        x = 0
        for k in range(1, depth + 1):
            for root in ('profiler', 'void'):
                if k == depth and root == 'void':
                    continue
                for hist in itertools.product(alphabet, repeat=k):
                    x += 1
                    if x % n != shard:
                        continue
                    if k == depth and hist[0][0] in (
                            'remove', 'discard', 'exclude', 'clear'):
                        # nothing to take away from.
                        continue
                    ctx.case({'root': root, 'history': hist}, plain_case, ctx,
                             root, hist)
        for k in range(1, 7):
            for times in itertools.product((0.0, 1.0, 4.0), repeat=k):
                x += 1
                if x % n == shard:
                    ctx.case({'times': times}, upgrade_time_case, ctx, times)
    ctx.shards(work)

    # deeper, states once.
    small = [op for op in BASIC if op[1:] != ('b',)] + SUBS

    def search(ctx, shard, n):
        roots = ('recording', 'void')
        starts = [(r, op) for r in roots for op in small]
        for x, (root, op) in enumerate(starts):
            if x % n == shard:
                bfs(Tagged(ctx, root), lambda hist: small,
                    lambda hist: limited(play(ctx, root, hist)), deep,
                    start=((op,),))
    ctx.shards(search)


def limited(state):
    """Bounds the counters."""
    def size(s):
        return s[1] + sum(size(k) for __, k in s[3])
    return None if state is None or size(state) > 6 else state


class Tagged(object):
    """A context which adds the root to a case."""

    def __init__(self, ctx, root):
        self.ctx, self.root = ctx, root
        self.states = ctx.states

    def case(self, case, func, *args):
        case['root'] = self.root
        return self.ctx.case(case, func, *args)

    def step(self):
        self.ctx.step()


def replay(ctx, case):
    if 'times' in case:
        ctx.case(case, upgrade_time_case, ctx, tuple(case['times']))
    else:
        ctx.case(case, plain_case, ctx, case['root'],
                 [tuple(op) for op in case['history']])
