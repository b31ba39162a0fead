# -*- coding: utf-8 -*-
"""Bounded programs for the tracing profiler: all call trees up to a size.

A program is a tree of calls.  It is executed for real (Python functions under
the real interpreter hooks) and, independently, simulated as a plain event
sequence from which a reference model computes what has to be recorded.
"""
from __future__ import absolute_import

import itertools

#: The clock of the running program.  A plain object, because a function call
#: would be an event of its own.
class C(object):
    now = 0.0


FILE = '<driver>'

SRC_PLAIN = '''
def {name}(n):
    C.now += n.d[0]
    for o in n.ops[0]: o()
    C.now += n.e[0]
    i = 0
    for k in n.kids:
        i += 1
        try:
            if k.gen:
                for y in k.fn(k):
                    C.now += k.y
            else:
                k.fn(k)
        except KeyError:
            pass
        C.now += n.d[i]
        for o in n.ops[i]: o()
        C.now += n.e[i]
    if n.raises:
        raise KeyError
'''

SRC_GEN = '''
def {name}(n):
    C.now += n.d[0]
    for o in n.ops[0]: o()
    C.now += n.e[0]
    yield
    i = 0
    for k in n.kids:
        i += 1
        try:
            if k.gen:
                for y in k.fn(k):
                    C.now += k.y
            else:
                k.fn(k)
        except KeyError:
            pass
        C.now += n.d[i]
        for o in n.ops[i]: o()
        C.now += n.e[i]
        yield
    if n.raises:
        raise KeyError
'''


def _function(src, name, filename, lineno):
    ns = {'C': C}
    exec(compile('\n' * (lineno - 1) + src.format(name=name), filename,
                 'exec'), ns)
    return ns[name]


#: label -> (plain function, generator function, identity of the function)
FUNCS = {}


def _define(label, name, filename, lineno):
    FUNCS[label] = (_function(SRC_PLAIN, name, filename, lineno),
                    _function(SRC_GEN, name, filename, lineno + 100),
                    (name, filename, lineno + 1),
                    (name, filename, lineno + 101))


_define('f', 'f', FILE + '/a.py', 1)
_define('g', 'g', FILE + '/a.py', 1)
# the same name at another line.
_define('l', 'f', FILE + '/a.py', 50)
# the same name, line and code in another file.
_define('m', 'f', FILE + '/b.py', 1)


class Node(object):

    __slots__ = ('label', 'gen', 'raises', 'kids', 'fn', 'key', 'd', 'e', 'y',
                 'ops', 'slot0')

    def __init__(self, label, gen, raises, kids):
        self.label = label
        self.gen = gen
        self.raises = raises
        self.kids = kids
        plain, genfn, key, genkey = FUNCS[label]
        self.fn = genfn if gen else plain
        self.key = genkey if gen else key


def build(spec):
    """spec: (label, mode, (kid specs...)); mode: 'r'eturn, 'x' raise, 'y'
    generator, 'z' raising generator.
    """
    label, mode, kids = spec
    return Node(label, mode in 'yz', mode in 'xz',
                [build(k) for k in kids])


def slots(root):
    """Numbers the program points in execution order."""
    counter = itertools.count()
    order = []

    def walk(n):
        n.d, n.e, n.ops = [], [], []
        for x in range(len(n.kids) + 1):
            if x:
                walk(n.kids[x - 1])
            # sums of many remain exact.
            i = next(counter) % 12
            n.d.append(float(1 << (2 * i)))
            n.e.append(float(2 << (2 * i)))
            n.ops.append([])
            order.append((n, x))
        n.y = 0.5
    walk(root)
    return order


def trees(n, labels, modes, root_modes='r'):
    """All call trees with exactly n calls."""
    def forests(n):
        if n == 0:
            yield ()
            return
        for size in range(1, n + 1):
            for first in nodes(size, modes):
                for rest in forests(n - size):
                    yield (first,) + rest

    def nodes(n, modes):
        for kids in forests(n - 1):
            for mode in modes:
                for label in labels:
                    yield (label, mode, kids)
    return nodes(n, root_modes)


def simulate(root):
    """The event sequence of a program (begins after the harness called)."""
    out = []

    def slot(n, x):
        out.append(('tick', n.d[x]))
        for o in n.ops[x]:
            out.append(('op', o))
        out.append(('tick', n.e[x]))

    def call(k, parent=None):
        if not k.gen:
            out.append(('enter', k.key))
            slot(k, 0)
            for i, kid in enumerate(k.kids):
                call(kid)
                slot(k, i + 1)
            out.append(('exit', k.key))
        else:
            out.append(('enter', k.key))
            slot(k, 0)
            out.append(('exit', k.key))
            out.append(('tick', k.y))
            out.append(('enter', k.key))
            for i, kid in enumerate(k.kids):
                call(kid)
                slot(k, i + 1)
                out.append(('exit', k.key))
                out.append(('tick', k.y))
                out.append(('enter', k.key))
            out.append(('exit', k.key))
    call(root)
    return out


class RefNode(object):

    def __init__(self):
        self.kids = {}
        self.hits = 0
        self.time = 0.0
        self.recorded = False

    def total(self):
        """The inclusive time."""
        t = self.time
        if not self.recorded:
            t += sum(k.total() for k in self.kids.values())
        return t

    def entered(self):
        if not self.recorded:
            # what its callees spent while it was active from before.
            self.time += sum(k.total() for k in self.kids.values())
            self.recorded = True
        self.hits += 1


class Reference(object):
    """Interprets an event sequence as specified."""

    def __init__(self):
        self.now = 0.0
        self.stack = []  # [path key, session id or None, time]
        self.session = None
        self.sessions = 0
        self.root = RefNode()
        self.session_time = 0.0

    def node(self, depth):
        n = self.root
        for key, __, __ in self.stack[:depth]:
            n = n.kids.setdefault(key, RefNode())
        return n

    def feed(self, event):
        kind, arg = event
        if kind == 'tick':
            self.now += arg
        elif kind == 'enter':
            self.stack.append((arg, self.session, self.now))
            if self.session is not None:
                self.node(len(self.stack)).entered()
        elif kind == 'exit':
            key, session, t = self.stack[-1]
            if session is not None and session == self.session:
                self.node(len(self.stack)).time += self.now - t
            self.stack.pop()
        elif kind == 'start':
            self.sessions += 1
            self.session = self.sessions
            self.root = RefNode()
            self.started_at = self.now
        elif kind == 'stop':
            self.session = None
            self.session_time = self.now - self.started_at

    def tree(self):
        return prune(ref_tree(self.root))


def ref_tree(n):
    out = {}
    for key, k in n.kids.items():
        kids = ref_tree(k)
        total = k.total()
        own = max(0.0, total - sum(x.total() for x in k.kids.values()))
        out[key] = (k.hits, total, own, kids)
    return out


def stats_tree(stats):
    """The tree recorded by the implementation, just of the driver's code."""
    out = {}
    for s in stats:
        filename = s.filename
        if not (filename or '').startswith(FILE):
            continue
        key = (s.name, filename, s.lineno)
        item = (s.own_hits, s.deep_time, s.own_time, stats_tree(s))
        if key in out:
            out[('duplicate',) + key] = item
        else:
            out[key] = item
    return out


def prune(tree):
    """Drops the paths which were not called at all and called nothing."""
    out = {}
    for key, (hits, total, own, kids) in tree.items():
        kids = prune(kids)
        if hits or kids or total:
            out[key] = (hits, total, own, kids)
    return out


def only_hits(tree):
    return dict((k, (h, only_hits(kids)))
                for k, (h, t, o, kids) in tree.items())


def only_times(tree):
    return dict((k, (t, o, only_times(kids)))
                for k, (h, t, o, kids) in tree.items())


def freeze(tree):
    return tuple(sorted((k,) + tuple(freeze(x) if isinstance(x, dict) else x
                                     for x in v) for k, v in tree.items()))
