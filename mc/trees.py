# -*- coding: utf-8 -*-
"""Enumerates statistics trees and builds them in the implementation."""
from __future__ import absolute_import

import itertools

_shapes = {}


def shapes(n):
    """All ordered trees of n nodes, as nested tuples of children."""
    if n not in _shapes:
        out = []
        if n == 1:
            out.append(())
        else:
            for rest in forests(n - 1):
                out.append(rest)
        _shapes[n] = out
    return _shapes[n]


def forests(n):
    """All ordered forests of n nodes."""
    if n == 0:
        return [()]
    out = []
    for k in range(1, n + 1):
        for first in shapes(k):
            for rest in forests(n - k):
                out.append((first,) + rest)
    return out


class Node(object):
    """A node of the reference tree."""

    __slots__ = ('key', 'hits', 'time', 'kids', 'index')

    def __init__(self, key, hits, time, kids, index):
        self.key, self.hits, self.time = key, hits, time
        self.kids, self.index = kids, index

    def walk(self):
        """All nodes below."""
        for kid in self.kids:
            yield kid
            for x in kid.walk():
                yield x

    @property
    def deep_hits(self):
        return self.hits + sum(x.hits for x in self.walk())

    @property
    def own_time(self):
        return max(0.0, self.time - sum(x.time for x in self.kids))

    def spec(self):
        return (self.key, self.hits, self.time,
                tuple(x.spec() for x in self.kids))


def grow(shape, members):
    """Makes a reference tree: members yields (key, hits, time) in preorder."""
    counter = itertools.count()

    def make(shape):
        index = next(counter)
        key, hits, time = members[index]
        return Node(key, hits, time, [make(s) for s in shape], index)
    return make(shape)


def from_spec(spec):
    key, hits, time, kids = spec
    return Node(tuple(key), hits, time, [from_spec(k) for k in kids], None)


def build_frozen(node, cls):
    stats = cls(*(node.key + (node.hits, node.time)))
    for kid in node.kids:
        stats.children.append(build_frozen(kid, cls))
    return stats


_codes = {}


def code_of(key):
    name, filename, lineno = key[:3]
    k = (name, filename, lineno)
    if k not in _codes:
        ns = {}
        src = '\n' * (lineno - 1) + 'def %s():\n    pass\n' % name
        exec(compile(src, filename, 'exec'), ns)
        _codes[k] = ns[name].__code__
    return _codes[k]


def build_recording(node, cls, stats=None, void=None):
    """Builds a recording tree; nodes without hits and time are void ones if
    `void` is given.
    """
    stats = cls() if stats is None else stats
    stats.own_hits, stats.deep_time = node.hits, node.time
    for kid in node.kids:
        c = void if void is not None and not kid.hits and not kid.time \
            else cls
        build_recording(kid, cls, stats.ensure_child(code_of(kid.key), c),
                        void)
    return stats
