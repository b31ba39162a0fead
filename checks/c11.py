# -*- coding: utf-8 -*-
"""C11: freezing, pickling and dumping preserve the whole result."""
from __future__ import absolute_import

import inspect
import itertools
import os
import pickle
import shutil
import sys
import tempfile

from mc import env
env.install(*env.CLOCKS)

from mc import trees
from mc.core import expect, expect_equal

from profiling.profiler import Profiler
from profiling.sampling import SamplingProfiler
from profiling.stats import (
    FrozenStatistics, RecordingStatistics, VoidRecordingStatistics)
from profiling.tracing import TracingProfiler
from profiling.tracing.timers import Timer

INFO = {
    'technique': 'exhaustive enumeration of statistics trees, pickle '
                 'protocols, dump histories and interleaved insertions on the '
                 'real classes and real files',
    'bounds': 'all ordered trees up to 5 (quick) / 6 (thorough) nodes with '
              'distinct members, all pairs of member values, every pickle '
              'protocol; recording trees with absent frames up to 4 / 5 '
              'nodes; chains and fans up to 10000 nodes; all histories of up '
              'to 4 operations (start, record, dump, stop) over 2 file '
              'states; an insertion at every step of walking all trees up to '
              '4 nodes',
    'assumptions': ['inspect.getmodule() is deterministic'],
}

PROTOCOLS = range(0, pickle.HIGHEST_PROTOCOL + 1)
KEYS = [('f', 'a.py', 1, 'a'), ('g', 'a.py', 1, 'a'), (None, 'b.py', 0, 'b'),
        ('f', 'b.py', 2, None), (None, None, None, None),
        (u'\u2603', u'\u2603.py', 10 ** 9, u'\u2603')]
ROOT = (None, None, None, None)


def members(s):
    return (s.name, s.filename, s.lineno, s.module, s.own_hits, s.deep_time)


def listing(stats):
    """[(depth, members)] in preorder, iteratively."""
    out, todo = [], [(0, stats)]
    while todo:
        depth, s = todo.pop()
        out.append((depth, members(s)))
        todo.extend((depth + 1, k) for k in reversed(list(s)))
    return out


def ids(stats):
    out, todo = set(), [stats]
    while todo:
        s = todo.pop()
        out.add(id(s))
        todo.extend(s)
    return out


def check_round_trips(ctx, stats, protocols=PROTOCOLS):
    want = listing(stats)
    before = ids(stats)
    for protocol in protocols:
        data = pickle.dumps(stats, protocol)
        got = pickle.loads(data)
        expect(isinstance(got, FrozenStatistics), 'is a %s',
               type(got).__name__)
        got_listing = listing(got)
        expect(got_listing == want, 'protocol %d restores %r of %r', protocol,
               got_listing[:9], want[:9])
        expect(not ids(got) & before, 'shares statistics with the original')
        for (__, a), (__, b) in zip(got_listing, want):
            expect([type(x) for x in a] == [type(x) for x in b],
                   'types of %r and %r', a, b)
        again = pickle.loads(pickle.dumps(got, protocol))
        expect(listing(again) == want, 'the second time another')
        expect_equal((got.deep_hits, len(got)),
                     (stats.deep_hits, len(stats)), 'hits and children')
        # detached: what happens to the original doesn't matter.
        ctx.step(2)
    ctx.state(want)
    expect(listing(stats) == want, 'the original was changed')
    return got


def frozen_case(ctx, spec):
    node = trees.from_spec(spec)
    check_round_trips(ctx, trees.build_frozen(node, FrozenStatistics))
    ctx.outcome('frozen')


def recording_case(ctx, spec):
    node = trees.from_spec(spec)
    stats = trees.build_recording(node, RecordingStatistics, None,
                                  VoidRecordingStatistics)
    got = check_round_trips(ctx, stats, (0, 2, pickle.HIGHEST_PROTOCOL))
    want = listing(got)
    # detached: the session goes on.
    todo = [stats]
    while todo:
        s = todo.pop()
        todo.extend(list(s))
        s.ensure_child(members.__code__).own_hits += 1
        s.own_hits += 7
        s.deep_time += 7
    expect(listing(got) == want, 'changes with the original')
    ctx.outcome('recording')


def big_case(ctx, what, n):
    root = FrozenStatistics()
    at = root
    for x in range(n):
        kid = FrozenStatistics('f%d' % x, 'a.py', x, 'a', x % 5, float(n - x))
        at.children.append(kid)
        if what == 'chain' or what == 'comb' and x % 2:
            at = kid
    check_round_trips(ctx, root, (0, 2, pickle.HIGHEST_PROTOCOL))
    ctx.outcome(what)


# -- walking while a session records

def insertion_case(ctx, spec, at, where):
    """Freezes a recording tree; another thread or a signal handler adds a
    child to one of the nodes while the nodes are visited.
    """
    node = trees.from_spec(spec)
    stats = trees.build_recording(node, RecordingStatistics)
    nodes, todo = [], [stats]
    while todo:
        s = todo.pop()
        nodes.append(s)
        todo.extend(reversed(list(s)))
    target = nodes[where]
    counter = itertools.count()
    reads = []

    class Watched(RecordingStatistics):
        """Inserts when a member is read."""
        __slots__ = ()

        @property
        def name(self):
            reads.append(1)
            if next(counter) == at:
                target.ensure_child(members.__code__, RecordingStatistics)
            return RecordingStatistics.name.__get__(self)
    for s in nodes:
        s.__class__ = Watched
    got = pickle.loads(pickle.dumps(stats, 2))
    new = members.__code__.co_name
    old = [(d, m[:3]) for d, m in listing(got) if m[0] != new]
    want = [(d, m[:3]) for d, m in listing(stats) if m[0] != new]
    expect_equal(old, want, 'restored')
    ctx.step(len(reads))
    ctx.state((spec, at, where))
    ctx.outcome('insertion')


def genexpr_case(ctx, size, at):
    """A child is added between any two steps of an iteration."""
    stats = RecordingStatistics()
    kids = [stats.ensure_child(x) for x in range(size)]
    got = []
    for x, s in enumerate(stats):
        got.append(s)
        if x == at:
            stats.ensure_child('new')
    expect([s for s in got if s.code != 'new'] == kids, 'iterated')
    ctx.step(size)
    ctx.state(('iter', size, at))


# -- dumping

class VTimer(Timer):
    now = 0.0

    def __call__(self):
        return VTimer.now


class Null(Profiler):
    def run(self):
        yield


def new_profiler(kind):
    if kind == 'null':
        return Null()
    if kind == 'sampling':
        return SamplingProfiler(base_frame=sys._getframe(1))
    return TracingProfiler(base_frame=sys._getframe(1), timer=VTimer())


OPS = ('start', 'rec', 'dump', 'stop')


def histories(n):
    """The possible ones."""
    for k in range(1, n + 1):
        for ops in itertools.product(OPS, repeat=k):
            running = False
            for op in ops:
                if op == 'start' and running or op == 'stop' and not running:
                    break
                if op in ('start', 'stop'):
                    running = not running
            else:
                if 'dump' in ops:
                    yield ops


def dump_case(ctx, kind, ops, file_state):
    clock = env.VirtualClock()
    folder = tempfile.mkdtemp(prefix='c11.')
    path = os.path.join(folder, 'x.prof')
    if file_state == 'longer':
        with open(path, 'wb') as f:
            f.write(b'\x80' * 5000000)
    elif file_state == 'result':
        with open(path, 'wb') as f:
            pickle.dump((Null, (FrozenStatistics(name='old'), 9, 9)), f, 2)
    profiler = new_profiler(kind)
    cls = type(profiler)
    profilable = sys.setprofile
    n = 0
    try:
        with env.patched(clock.targets()):
            for op in ops:
                n += 1
                clock.cpu += 2 ** n
                clock.wall += 3 ** n
                if op == 'start':
                    profiler.start()
                    profilable(None)
                elif op == 'stop':
                    profiler.stop()
                elif op == 'rec':
                    s = profiler.stats.ensure_child(members.__code__)
                    s.own_hits += n
                    s.deep_time += 2.0 * n
                    s.ensure_child(listing.__code__,
                                   VoidRecordingStatistics)
                else:
                    stats, cpu, wall = profiler.result()
                    want = (listing(stats), cpu, wall)
                    if n % 2:
                        profiler.dump(path)
                    else:
                        profiler.dump(path, 2)
                    with open(path, 'rb') as f:
                        got_cls, (got, got_cpu, got_wall) = pickle.load(f)
                        expect_equal(f.read(), b'', 'rest of the file')
                    expect(got_cls is cls, 'profiler class %r', got_cls)
                    expect_equal((listing(got), got_cpu, got_wall), want,
                                 'dumped result')
                    ctx.state((kind, want))
                ctx.step()
    finally:
        if profiler.is_running():
            profiler.stop()
        profilable(None)
        shutil.rmtree(folder)
    expect_equal(os.path.exists(folder), False, 'scratch folder')
    ctx.outcome('dump')


# -- all cases

def pairs_spec(a, b):
    return (ROOT, 0, 0.0, ((a[0], a[1], a[2], ()), (b[0], b[1], b[2], ())))


def cases(ctx):
    size = 5 if ctx.quick else 6
    for n in range(1, size + 1):
        for shape in trees.shapes(n):
            for rot in range(len(KEYS) if n < size else 2):
                ms = [(KEYS[(x + rot) % len(KEYS)], 1 << x, 2.0 ** -x)
                      for x in range(n)]
                yield 'frozen', (trees.grow(shape, ms).spec(),)
    values = [(k, h, t) for k in KEYS for h in (0, 1, 10 ** 30)
              for t in (0, 0.0, 1e-300, 1e300)]
    for a in values:
        for b in (values if not ctx.quick else values[::5]):
            yield 'frozen', (pairs_spec(a, b),)
    for n in range(1, size):
        for shape in trees.shapes(n):
            for mask in itertools.product((0, 1), repeat=n - 1):
                ms = [(ROOT, 0, 0.0)] + [
                    (('f%d' % (x % 3), 'x%d.py' % x, 1 + x), m << x,
                     m * 2.0 ** x) for x, m in enumerate(mask)]
                yield 'recording', (trees.grow(shape, ms).spec(),)
    for what, n in (('chain', 10000), ('fan', 10000), ('comb', 3000),
                    ('chain', 1200)):
        yield 'big', (what, n)
    for n in range(1, 5):
        for shape in trees.shapes(n):
            ms = [(ROOT, 0, 0.0)] + [(('f%d' % x, 'a.py', 1 + x), 1, 1.0)
                                     for x in range(n)]
            spec = trees.grow(shape, ms).spec()
            for at in range(n):
                for where in range(n):
                    yield 'insertion', (spec, at, where)
    for n in range(1, 6):
        for at in range(n):
            yield 'iteration', (n, at)
    length = 4 if ctx.quick else 6
    for ops in histories(length):
        for kind in ('null', 'sampling', 'tracing'):
            if kind == 'tracing' or len(ops) < length:
                yield 'dump', (kind, ops, 'none')
                if len(ops) < 4:
                    yield 'dump', (kind, ops, 'longer')
                    yield 'dump', (kind, ops, 'result')


CASES = {'frozen': frozen_case, 'recording': recording_case, 'big': big_case,
         'insertion': insertion_case, 'iteration': genexpr_case,
         'dump': dump_case}


def run(ctx):
    _getmodule = inspect.getmodule
    ctx.case({'kind': 'module', 'args': []}, module_case, ctx)
    # it's slow, and no subject of this check.
    cache = {}

    def getmodule(obj, *args):
        if id(obj) not in cache:
            cache[id(obj)] = (obj, _getmodule(obj, *args))
        return cache[id(obj)][1]
    inspect.getmodule = getmodule
    try:
        def work(ctx, shard, n):
            for x, (kind, args) in enumerate(cases(ctx)):
                if x % n == shard:
                    ctx.case({'kind': kind, 'args': args}, CASES[kind], ctx,
                             *args)
        ctx.shards(work)
    finally:
        inspect.getmodule = _getmodule


def module_case(ctx):
    """A function of an imported module has its name."""
    stats = RecordingStatistics()
    stats.ensure_child(shutil.rmtree.__code__)
    got = pickle.loads(pickle.dumps(stats))
    kid, = got
    expect_equal((kid.module, kid.name, kid.regular_name),
                 ('shutil', shutil.rmtree.__code__.co_name,
                  'shutil:' + shutil.rmtree.__code__.co_name), 'function')


def tuplify(x):
    return tuple(tuplify(y) for y in x) if isinstance(x, list) else x


def replay(ctx, case):
    if case['kind'] == 'module':
        ctx.case(case, module_case, ctx)
    else:
        ctx.case(case, CASES[case['kind']], ctx, *tuplify(case['args']))
