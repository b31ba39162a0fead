# -*- coding: utf-8 -*-
"""The reference of the table: which rows and cells statistics have."""
from __future__ import absolute_import

from fractions import Fraction as F

from mc import reffmt
from mc.core import expect
from mc.screen import clipped

#: the sortable columns in the order of the keys '[' and ']'.
SORTABLE = {'base': [0], 'tracing': [0, 1, 2, 3, 5, 6], 'sampling': [0, 1, 3]}
INITIAL = {'base': 0, 'tracing': 5, 'sampling': 3}


class Item(object):
    """What the table knows of one call path or function."""

    __slots__ = ('key', 'own_hits', 'deep_hits', 'own_time', 'deep_time',
                 'kids')

    def __init__(self, key, own_hits, deep_hits, own_time, deep_time, kids):
        self.key, self.kids = key, kids
        self.own_hits, self.deep_hits = own_hits, deep_hits
        self.own_time, self.deep_time = F(own_time), F(deep_time)

    @property
    def func(self):
        name, filename, lineno, module = self.key
        if name:
            return '%s (%s:%s)' % (name, module or filename, lineno)
        return module or filename

    def time_per_call(self):
        if not self.deep_hits:
            return self.deep_time
        return self.deep_time / self.own_hits if self.own_hits else F(0)

    def sort_key(self, kind, column):
        if column == 0:
            return (self.key[3] or '', self.key[0] or '')
        if kind == 'sampling':
            return -(self.own_hits if column == 1 else self.deep_hits)
        if column == 1:
            return -self.own_hits
        if column == 2:
            return (-self.own_time, -self.deep_time)
        if column == 3:
            return (-(self.own_time / self.own_hits if self.own_hits
                      else self.own_time), -self.time_per_call())
        if column == 5:
            return -self.deep_time
        return -self.time_per_call()

    def cells(self, kind, cpu_time, total_hits):
        """[(acceptable (text, attr) pairs)] of the columns."""
        if kind == 'base':
            return []

        def count(n):
            if n == 0:
                return [('n/a', 'zero')]
            return [(t, None) for t in reffmt.int_texts(n)]

        def percent(num, denom):
            r = reffmt.ratio(num, denom)
            return [(t, a) for t in reffmt.percent_texts(r)
                    for a in reffmt.ratio_attrs(r)]
        if kind == 'sampling':
            return [count(self.own_hits), percent(self.own_hits, total_hits),
                    count(self.deep_hits), percent(self.deep_hits, total_hits)]

        def per_call(t):
            return reffmt.time_texts(t / self.own_hits if self.own_hits
                                     else F(0))
        return [count(self.own_hits), reffmt.time_texts(self.own_time),
                per_call(self.own_time), percent(self.own_time, cpu_time),
                reffmt.time_texts(self.deep_time), per_call(self.deep_time),
                percent(self.deep_time, cpu_time)]


def nested(node):
    """The items of a reference tree (mc.trees.Node)."""
    return Item(node.key, node.hits, node.deep_hits, node.own_time, node.time,
                [nested(k) for k in node.kids])


def flat(node):
    """The functions of a reference tree."""
    groups = {}
    for n in node.walk():
        it = groups.get(n.key)
        if it is None:
            it = groups[n.key] = Item(n.key, 0, 0, 0, 0, [])
        it.own_hits += n.hits
        it.deep_hits += n.deep_hits
        it.own_time += F(n.own_time)
        it.deep_time += F(n.time)
    return Item(node.key, node.hits, node.deep_hits, node.own_time, node.time,
                list(groups.values()))


def check_row(row, item, kind, cpu_time, total_hits, widths, func_width=None):
    func = item.func
    if func_width is not None:
        func = func[:max(0, func_width)].rstrip()
    expect(row.func == func, 'a row shows %r instead of %r', row.func, func)
    cells = item.cells(kind, cpu_time, total_hits)
    for x, (cell, attrs, pairs, width) in enumerate(
            zip(row.cells, row.attrs, cells, widths)):
        texts = [t for t, __ in pairs]
        expect(cell in clipped(texts, width), 'column %d of %s is %r instead '
               'of %s', x + 1, item.func, cell, ' or '.join(texts))
        if row.focused:
            continue
        expect(any(set(attrs) <= {a} and cell in clipped([t], width)
                   for t, a in pairs), 'column %d of %s shows %r as %r, not '
               'one of %r', x + 1, item.func, cell, attrs, pairs)


def row_fits(row, item, kind, cpu_time, total_hits, widths, func_width):
    return row.func == item.func[:max(0, func_width)].rstrip() and all(
        cell in clipped([t for t, __ in pairs], width)
        for cell, pairs, width in zip(
            row.cells, item.cells(kind, cpu_time, total_hits), widths))
