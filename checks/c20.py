# -*- coding: utf-8 -*-
"""C20: pausing freezes the shown result and resuming shows the latest."""
from __future__ import absolute_import

import datetime
from fractions import Fraction as F

from mc import env  # noqa: F401
from mc import reffmt
from mc.core import expect, hash_state, sequences, words
from mc.screen import capture, clipped

from profiling.sampling import SamplingProfiler
from profiling.stats import FrozenStatistics
from profiling.tracing import TracingProfiler
from profiling.viewer import StatisticsViewer

INFO = {
    'technique': 'exhaustive exploration of event histories on the real '
                 'viewer and its rendered screen against a reference model '
                 '(all histories up to a depth, and all transitions of the '
                 'reference model from a shortest history, rendering '
                 'before and after the last event)',
    'bounds': 'events: results (with title and time, title only, time only '
              'or neither; no wall time), profiler class changes among two '
              'classes, activate, inactivate, pause, resume, the space key, '
              'the sort keys; all histories up to depth 3 (quick) / 5 '
              '(thorough) and every transition of the reference model up to '
              'depth 6 (quick) / 9 (thorough); histories of 96 events which '
              'repeat 1 or 2 events (3)',
    'assumptions': ['between a change of the profiler class and the next '
                    'result of that class, the viewer may show the latest '
                    'result or none'],
}

SIZE = (100, 9)

COLUMNS = {'base': 1, 'tracing': 8, 'sampling': 5}
#: sortable columns; the initial one of each table.
SORTABLE = {'base': [0], 'tracing': [0, 1, 2, 3, 5, 6], 'sampling': [0, 1, 3]}
INITIAL = {'base': 0, 'tracing': 5, 'sampling': 3}
CLASSES = {'tracing': TracingProfiler, 'sampling': SamplingProfiler}

EVENTS = ['result:ta', 'result:t', 'result:a', 'result:', 'class:tracing',
          'class:sampling', 'activate', 'inactivate', 'pause', 'resume',
          'key: ', 'key:]', 'key:[']


def make_result(n, meta):
    """The n-th result: (stats, cpu time, wall time, title, at)"""
    root = FrozenStatistics(None, None, None, None, 0, 20.0 + n)
    # the last sorted by name, the first by hits.
    root.children.append(FrozenStatistics('z%d' % n, 'z.py', 9, 'z', 50, 2.0))
    root.children.append(FrozenStatistics('a%d' % n, 'a.py', 1, 'a', n + 1,
                                          10.0 + n))
    return (root, 10.0 + n, 40.0 if n % 3 else 0.0,
            'title%d' % n if 't' in meta else None,
            datetime.datetime(2017, 1, 1, n % 24, 2, 3)
            if 'a' in meta else None)


def expected_rows(kind, n, column):
    """[(function, [acceptable cells])] in the expected order."""
    rows = []
    for name, hits, time in [('z', 50, F(2)), ('a', n + 1, F(10 + n))]:
        func = '%s%d (%s:%d)' % (name, n, name, 9 if name == 'z' else 1)
        if kind == 'tracing':
            cpu = F(10 + n)
            t = [x for x, __ in reffmt.time_texts(time)]
            per = [x for x, __ in reffmt.time_texts(time / hits)]
            share = reffmt.percent_texts(time / cpu)
            cells = [reffmt.int_texts(hits), t, per, share, t, per, share]
            keys = [func, -hits, -time, -time / hits, None, -time,
                    -time / hits, None]
        elif kind == 'sampling':
            share = reffmt.percent_texts(F(hits, 50 + n + 1))
            h = reffmt.int_texts(hits)
            cells = [h, share, h, share]
            keys = [func, -hits, None, -hits, None]
        else:
            cells, keys = [], [func]
        rows.append((keys[column], func, cells))
    rows.sort()
    return [(func, cells) for __, func, cells in rows]


class Model(object):
    """What has to be shown."""

    def __init__(self):
        self.active = self.paused = False
        self.kind = self.current = 'base'  # the shown class, the real one.
        self.column = INITIAL['base']
        self.results = 0
        self.metas = []
        self.shown = self.latest = None
        self.maybe = False  # the latest result instead of none

    def apply(self, event):
        what, __, arg = event.partition(':')
        if what == 'result':
            self.metas.append(arg)
            self.latest = len(self.metas) - 1
            if not self.paused:
                self.shown, self.maybe = self.latest, False
        elif what == 'class':
            self.current = arg
            if not self.paused:
                self.adopt()
        elif what in ('activate', 'inactivate'):
            self.active = what == 'activate'
        elif what == 'pause':
            self.paused = True
        elif what == 'resume':
            self.resume()
        elif arg == ' ':
            if self.paused:
                self.resume()
            else:
                self.paused = True
        else:
            columns = SORTABLE[self.kind]
            x = columns.index(self.column) + (1 if arg == ']' else -1)
            self.column = columns[x % len(columns)]

    def adopt(self):
        if self.kind != self.current:
            self.kind = self.current
            self.column = INITIAL[self.kind]
            self.shown, self.maybe = None, self.latest is not None

    def resume(self):
        self.paused = False
        self.adopt()
        self.shown, self.maybe = self.latest, False

    def key(self):
        return (self.active, self.paused, self.kind, self.current,
                self.column, self.maybe,
                None if self.shown is None else
                (self.latest - self.shown, self.metas[self.shown]),
                None if self.latest is None else self.metas[self.latest])

    def check(self, screen):
        want = 'thead'
        if self.paused:
            want = 'thead.paused'
        elif not self.active:
            want = 'thead.inactive'
        state, sorted_columns = screen.state
        expect(state == want, 'the table head shows %r instead of %r', state,
               want)
        expect(screen.kind == self.kind, 'the table is for %s instead of %s',
               screen.kind, self.kind)
        expect(sorted_columns == [self.column], 'the columns %r are marked '
               'as sorted instead of %d', sorted_columns, self.column)
        shown = self.shown
        if self.maybe and screen.rows:
            shown = self.latest
        if shown is None:
            expect(not screen.rows, 'rows without a result: %r', screen.rows)
            expect(screen.empty, 'it is not shown that there is no result')
            expect(not screen.header, 'a header without a result: %r',
                   screen.header)
            return
        meta = self.metas[shown]
        expect(not screen.empty, 'it is shown that there is no result')
        rows = expected_rows(self.kind, shown, self.column)
        got = [row.func for row in screen.rows]
        expect(got == [func for func, __ in rows], 'the rows are %r instead '
               'of %r', got, [func for func, __ in rows])
        for row, (func, cells) in zip(screen.rows, rows):
            for cell, texts, width in zip(row.cells, cells, screen.widths):
                expect(cell in clipped(texts, width), 'a cell of %s is %r '
                       'instead of %s', func, cell, ' or '.join(texts))
        cpu, wall = F(10 + shown), F(40 if shown % 3 else 0)
        tail = []
        if 't' in meta:
            tail.append('title%d' % shown)
        if 'a' in meta:
            tail.append('%02d:02:03' % (shown % 24))
        headers = [' '.join(['CPU', p + '%', '(%s/%s)' % (c, w)] + tail)
                   for p in reffmt.percent_texts(reffmt.ratio(cpu, wall))
                   for c, __ in reffmt.time_texts(cpu)
                   for w, __ in reffmt.time_texts(wall)]
        expect(screen.header in headers, 'the header is %r instead of %s',
               screen.header, ' or '.join(map(repr, headers)))


def execute(viewer, event, n):
    what, __, arg = event.partition(':')
    if what == 'result':
        viewer.set_result(*make_result(n, arg))
    elif what == 'class':
        viewer.set_profiler_class(CLASSES[arg])
    elif what == 'key':
        viewer.widget.keypress(SIZE, arg)
    else:
        getattr(viewer, what)()


def play(history, each):
    """Plays a history; looks at the screen after its last event and, if told
    so, before it.
    """
    model, viewer = Model(), StatisticsViewer()
    for x, event in enumerate(history):
        execute(viewer, event, len(model.metas))
        model.apply(event)
        if x >= len(history) - (2 if each else 1) or each and x % 16 == 15:
            model.check(capture(viewer.widget, SIZE))
    return model


def transitions(depth):
    """A shortest history to every state of the model, plus each event."""
    seen, frontier = set(), [()]
    while frontier:
        following = []
        for hist in frontier:
            for event in EVENTS:
                nxt = hist + (event,)
                model = Model()
                for e in nxt:
                    model.apply(e)
                yield nxt
                key = hash_state(model.key())
                if key not in seen and len(nxt) < depth:
                    seen.add(key)
                    following.append(nxt)
        frontier = following


def run(ctx):
    depth, deep = (3, 6) if ctx.quick else (5, 9)

    def work(ctx, shard, n):
        k = 0
        for family, histories in [
                ('all', sequences(EVENTS, depth)),
                ('transitions', transitions(deep)),
                ('long', (word * (96 // len(word)) for word in
                          words(EVENTS, 2 if ctx.quick else 3)))]:
            for hist in histories:
                k += 1
                if k % n != shard:
                    continue
                each = family != 'all' or len(hist) <= depth
                ctx.step(len(hist))
                box = []
                ctx.case({'history': list(hist), 'each': each},
                         lambda: box.append(play(hist, each)))
                if box:
                    ctx.state(box[0].key())
                    ctx.outcome((box[0].paused, box[0].active, box[0].kind,
                                 box[0].shown == box[0].latest))
    ctx.shards(work)


def replay(ctx, case):
    ctx.case(case, play, case['history'], case['each'])
