# -*- coding: utf-8 -*-
"""Runs a history of operations in real greenlets: each operation is executed
by the greenlet which is current then.
"""
from __future__ import absolute_import

import greenlet

from mc.core import HarnessError


class Woken(Exception):
    """Thrown into a greenlet to wake it."""


class Greens(object):
    """Greenlet 0 is the one which calls run()."""

    def __init__(self, n, execute):
        self.n = n
        self.execute = execute
        self.ops = []
        self.pos = 0
        self.greens = {}
        self.current = 0
        #: how many greenlets were made for an index.
        self.made = {}

    def run(self, ops):
        self.ops = list(ops)
        self.greens[0] = greenlet.getcurrent()
        self.error = None
        self._loop(0)
        # finish the others.
        for x, g in sorted(self.greens.items()):
            if x and not g.dead:
                g.throw(greenlet.GreenletExit)
        if self.error is not None:
            raise self.error

    def _enter(self, me):
        def body(*args):
            try:
                self._loop(me)
            except greenlet.GreenletExit:
                pass
        return body

    def _switch(self, target, throw):
        g = self.greens.get(target)
        self.current = target
        new = g is None or g.dead
        if new:
            self.made[target] = self.made.get(target, 0) + 1
            g = self.greens[target] = greenlet.greenlet(
                self._enter(target), self.greens[0])
        try:
            if throw and not new:
                g.throw(Woken)
            else:
                g.switch()
        except Woken:
            # woken by another one.
            pass

    def _loop(self, me):
        while self.pos < len(self.ops) and self.error is None:
            if self.current != me:
                if me == 0:
                    # a greenlet ended: its parent goes on.
                    self.current = 0
                else:
                    raise HarnessError('lost track of greenlets')
            op = self.ops[self.pos]
            self.pos += 1
            if op[0] in ('switch', 'throw'):
                if op[1] != me:
                    self._switch(op[1], op[0] == 'throw')
                continue
            if op[0] == 'exit':
                if me:
                    self.current = 0
                    return
                continue
            try:
                self.execute(me, op)
            except BaseException as exc:
                self.error = exc
        if me and self.current == me:
            # finished: back to the first one.
            self.current = 0
            return
