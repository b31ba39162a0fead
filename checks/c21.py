# -*- coding: utf-8 -*-
"""C21: any key sequence keeps a usable view and updates keep the place."""
from __future__ import absolute_import

import collections

from mc import env  # noqa: F401
from mc import trees, viewref
from mc.core import expect, expect_equal, Mismatch, sequences
from mc.screen import capture

import urwid

from profiling import viewer as viewer_module
from profiling.sampling import SamplingProfiler
from profiling.stats import FrozenStatistics
from profiling.tracing import TracingProfiler
from profiling.viewer import StatisticsViewer

INFO = {
    'technique': 'transition tour: all transitions of the reachable reference '
                 'model of the view (layout, order, unfolded paths, focus, '
                 'pause, result) are taken on the real viewer, the rendered '
                 'screen is compared after each; and all short histories '
                 'from a fresh viewer',
    'bounds': 'families of up to 4 results of up to 6 call paths (recursion, '
              'functions which become leaves, get callees, vanish and come '
              'back or move to other callers, no functions at all), the documented keys, vim and game '
              'keys, unknown keys, and result updates; per family all '
              'reachable states of the model and all events in each; all '
              'histories of 3 (quick) / 4 (thorough) events; a screen '
              'which shows all rows and one which '
              'shows two',
    'assumptions': ['siblings differ in name, file or line',
                    'folding by the left key at a leaf may fold its caller '
                    'or just go there', 'an unfolded path which vanished or '
                    'became a leaf may come back folded'],
}

CLASSES = {'sampling': SamplingProfiler, 'tracing': TracingProfiler}
BIG, SMALL = (90, 14), (90, 4)


def tree(*tops):
    """Tops are (name, hits, kid, kid, ...)."""
    def node(spec):
        name, hits = spec[:2]
        kids = [node(k) for k in spec[2:]]
        key = (name, name + '.py', ord(name), None)
        return trees.Node(key, hits, hits * hits + sum(k.time for k in kids),
                          kids, None)
    kids = [node(t) for t in tops]
    return trees.Node((None,) * 4, 0, sum(k.time for k in kids), kids, None)


DEEP = tree(('a', 1, ('b', 2, ('c', 4)), ('d', 8)), ('e', 16))
#: the same functions, in another order.
DEEP2 = tree(('a', 16, ('b', 2, ('c', 4)), ('d', 1)), ('e', 8))
#: b is a leaf, c has gone, another order.
LESS = tree(('e', 1), ('a', 2, ('d', 4), ('b', 32)))
#: e has callees, a is a leaf.
OTHER = tree(('a', 1), ('e', 2, ('b', 4, ('c', 8))))
FEW = tree(('a', 1, ('b', 2)), ('e', 4))
FEW3 = tree(('a', 1, ('b', 1), ('d', 2)), ('c', 16), ('e', 4))
#: a leaf now.
FEW2 = tree(('a', 8), ('e', 4))
RECURSIVE = tree(('f', 1, ('f', 2, ('f', 4, ('g', 8)))))
RECURSIVE2 = tree(('f', 1, ('f', 2, ('g', 4), ('f', 8)), ('g', 16)))
EMPTY = tree()
#: the same functions at other call paths.
CHAIN = tree(('a', 1, ('b', 2, ('c', 4))), ('e', 8))
CHAIN2 = tree(('a', 1, ('c', 2, ('b', 4))), ('c', 8, ('a', 16)), ('e', 4))
CHAIN3 = tree(('b', 1, ('c', 2)), ('e', 4, ('c', 1)))
FLATTISH = tree(('a', 1), ('b', 2), ('c', 4))

NAMES = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJ'
#: many functions; and some of them in another order.
LONG = tree(*[(c, x + 1) for x, c in enumerate(NAMES)])
LONG2 = tree(*[(c, (x * 7) % 36 + 1) for x, c in enumerate(NAMES) if x % 5])


def chain(names, *extra):
    spec = (names[-1], 1)
    for c in names[-2::-1]:
        spec = (c, 1, spec) + extra
        extra = ()
    return tree(spec)


TALL = chain(NAMES[:20])
TALL2 = chain(NAMES[:20], ('Z', 50))

NAV = ['down', 'up', 'right', 'left', '>', 'esc']
SORT = ['[', ']']
LAYOUT = ['\\']
PAUSE = [' ']
OTHERS = ['x', 'q', '+', '-', 'enter', 'tab']


def results(n):
    return ['result %d' % x for x in range(n)]


#: (name, kind, trees, the first one or None, events)
QUICK = [
    ('keys', 'sampling', [DEEP], 0, NAV + LAYOUT + ['x', 'q', 'tab']),
    ('sort', 'sampling', [DEEP], 0, NAV + SORT),
    ('layout', 'sampling', [FEW], 0, NAV + SORT + LAYOUT + PAUSE + ['enter']),
    ('tracing', 'tracing', [FEW], 0, ['down', 'right', 'left', '>', 'esc'] +
     SORT + LAYOUT),
    ('recursive', 'sampling', [RECURSIVE], 0, NAV + LAYOUT),
    ('recursive update', 'sampling', [RECURSIVE, RECURSIVE2], 0,
     ['down', 'right', 'left', '>', 'esc'] + results(2)),
    ('update', 'sampling', [DEEP, LESS], 0,
     ['down', 'right', 'left', '>'] + results(2)),
    ('leaf', 'sampling', [FEW, FEW2], 0, NAV + LAYOUT + results(2)),
    ('empty', 'sampling', [FEW, EMPTY], None, NAV + results(2) + LAYOUT),
    ('none', 'sampling', [], None, NAV + SORT + LAYOUT + PAUSE + OTHERS),
    ('pause', 'sampling', [FEW, FEW2, FLATTISH], 0,
     ['down', 'right', '>'] + PAUSE + results(3)),
    ('vim', 'sampling', [FEW], 0, ['j', 'k', 'l', 'h', '>', 'esc']),
    ('game', 'sampling', [FEW], 0, ['s', 'w', 'd', 'a', '>', 'esc']),
    ('small keys', 'sampling', [DEEP], 0, NAV + ['\\']),
    ('small update', 'sampling', [FEW, FEW3, FLATTISH], 0,
     ['down', 'up', 'right', '>', 'esc'] + results(3)),
    ('all', 'sampling', [FEW, FEW2], 0,
     NAV + SORT + LAYOUT + PAUSE + results(2)),
    ('updates', 'sampling', [DEEP, LESS, OTHER, EMPTY], None,
     NAV + results(4)),
    ('moved', 'sampling', [CHAIN, CHAIN2, CHAIN3], 0,
     ['down', 'right', '>', 'esc'] + results(3)),
    ('updates sort', 'sampling', [LESS, OTHER], 0,
     NAV + [']'] + results(2)),
    ('small all', 'sampling', [DEEP, DEEP2], 0, NAV + SORT + LAYOUT +
     results(2) + ['page down', 'page up', 'home', 'end']),
    ('small long', 'sampling', [LONG, LONG2], 0,
     ['down', 'up', '>', 'esc', 'page down', 'page up', 'home', 'end'] +
     results(2)),
    ('small tall', 'sampling', [TALL, TALL2], 0,
     ['right', '>', 'esc'] + results(2)),
]
THOROUGH = [
    ('updates all', 'sampling', [FEW, FEW2, RECURSIVE], 0,
     NAV + [']'] + LAYOUT + PAUSE + results(3)),
    ('all 2', 'sampling', [DEEP], 0, NAV + SORT + LAYOUT + PAUSE),
    ('all tracing', 'tracing', [DEEP], 0,
     NAV + SORT + LAYOUT + ['x', 'q', 'tab']),
    ('updates layout', 'sampling', [DEEP, LESS, OTHER], 0,
     NAV + LAYOUT + results(3)),
    ('paused updates', 'sampling', [DEEP, OTHER, FLATTISH], 0,
     ['down', 'right', 'left', '>'] + PAUSE + results(3)),
    ('moved all', 'sampling', [CHAIN, CHAIN2, CHAIN3], 0,
     NAV + [']'] + LAYOUT + results(3)),
    ('recursive all', 'sampling', [RECURSIVE, RECURSIVE2, EMPTY], 0,
     NAV + LAYOUT + SORT + results(3)),
]
SHORT, = [f for f in QUICK if f[0] == 'all']
ALIASES = {'j': 'down', 'k': 'up', 'l': 'right', 'h': 'left', 's': 'down',
           'w': 'up', 'd': 'right', 'a': 'left', 'enter': ' '}


class View(object):
    """The reference model of what the user sees."""

    def __init__(self, kind, family):
        self.kind, self.trees = kind, family
        self.nested = [viewref.nested(t) for t in family]
        self.flat = [viewref.flat(t) for t in family]
        self.is_flat = False
        self.column = viewref.INITIAL[kind]
        self.unfolded = frozenset()
        self.uncertain = frozenset()  # may have come back folded
        self.focus = ()
        self.paused = False
        self.shown = self.latest = None

    def key(self):
        return (self.is_flat, self.column, self.unfolded, self.uncertain,
                self.focus, self.paused, self.shown, self.latest)

    # -- the shown rows

    def root(self):
        return (self.flat if self.is_flat else self.nested)[self.shown]

    def order(self, item):
        return sorted(item.kids,
                      key=lambda i: i.sort_key(self.kind, self.column))

    def find(self, path):
        """The item at the longest existing part of the path, and that."""
        item, done = self.root(), ()
        for name in path:
            for kid in item.kids:
                if kid.key[0] == name:
                    item, done = kid, done + (name,)
                    break
            else:
                break
        return item, done

    def rows(self):
        """[(path, item)]"""
        out = []

        def visit(item, path):
            for kid in self.order(item):
                p = path + (kid.key[0],)
                out.append((p, kid))
                if p in self.unfolded:
                    visit(kid, p)
        if self.shown is not None:
            visit(self.root(), ())
        return out

    # -- events

    def show(self, index):
        before = None if self.shown is None else self.nested[self.shown]
        self.shown = index
        flat, self.is_flat = self.is_flat, False
        for path in self.unfolded:
            item, found = self.find(path)
            if found != path or not item.kids:
                self.unfolded -= {path}
                self.uncertain |= {path}
        self.is_flat = flat
        self.refocus()
        return before

    def refocus(self):
        if self.shown is not None:
            self.focus = self.find(self.focus)[1]

    def apply(self, event):
        """Applies an event.  Returns the acceptable focuses."""
        event = ALIASES.get(event, event)
        loose = None
        if event.startswith('result'):
            self.latest = int(event.split()[1])
            if not self.paused:
                self.show(self.latest)
        elif event == ' ':
            self.paused = not self.paused
            if not self.paused and self.latest is not None:
                self.show(self.latest)
        elif event in ('[', ']'):
            columns = viewref.SORTABLE[self.kind]
            x = columns.index(self.column) + (1 if event == ']' else -1)
            self.column = columns[x % len(columns)]
        elif event == '\\':
            self.is_flat = not self.is_flat
            self.refocus()
        elif self.shown is None:
            pass
        elif event == 'esc':
            self.focus = ()
        elif event == '>':
            item, path = self.find(self.focus)
            while item.kids:
                if path:
                    self.unfold(path)
                item = self.order(item)[0]
                path += (item.key[0],)
            self.focus = path
        elif event in ('up', 'down'):
            paths = [()] + [p for p, __ in self.rows()]
            x = paths.index(self.focus)
            if event == 'down':
                self.focus = paths[min(x + 1, len(paths) - 1)]
            elif x > 1:
                self.focus = paths[x - 1]
            elif x == 1:
                loose = [(), self.focus]
        elif self.is_flat:
            pass
        elif event == 'right':
            item, path = self.find(self.focus)
            if item.kids:
                if path and path not in self.unfolded:
                    self.unfold(path)
                else:
                    self.focus = path + (self.order(item)[0].key[0],)
        elif event == 'left' and self.focus:
            item, path = self.find(self.focus)
            if path in self.unfolded:
                self.unfolded -= {path}
                self.uncertain -= {path}
            elif len(path) > 1:
                self.focus = path[:-1]
                if not item.kids:
                    # of a leaf, its caller may be folded.
                    self.unfolded -= {self.focus}
                    self.uncertain |= {self.focus}
            elif not item.kids:
                loose = [(), path]
        return loose

    def unfold(self, path):
        self.unfolded |= {path}
        self.uncertain -= {path}

    def settle(self, screen, loose, tall):
        """Compares with what is shown, which decides what's left open."""
        if self.shown is None:
            expect(screen.empty and not screen.rows, 'rows without a result: '
                   '%r', screen.rows)
            return
        # an uncertain path is folded or not, whichever is shown.
        options = [()]
        if not self.is_flat:
            for path in sorted(self.uncertain):
                options += [o + (path,) for o in options]
        certain, uncertain = self.unfolded, self.uncertain
        for option in options:
            self.unfolded = certain | set(option)
            rows = self.rows()
            message, offset = self.compare(screen, rows, tall)
            if message is None:
                break
            first = message if not option else first
        else:
            raise Mismatch(first)
        for path in uncertain:
            if not self.is_flat and any(
                    path == p and item.kids for p, item in
                    rows[offset:offset + len(screen.rows)]):
                self.uncertain -= {path}
            else:
                self.unfolded -= {path}
        focused = [x for x, row in enumerate(screen.rows) if row.focused]
        expect(len(focused) <= 1, 'the rows %r are focused', focused)
        at = rows[offset + focused[0]][0] if focused else ()
        if loose is not None:
            expect(at in loose, 'the focus is at %r instead of %s', at,
                   ' or '.join(map(repr, loose)))
            self.focus = at
        expect_equal(at, self.focus, 'focus')


    def compare(self, screen, rows, tall):
        """Returns (what's wrong, number of the first shown row)."""
        if self.is_flat:
            want = [(0, ' ', item.func) for __, item in rows]
        else:
            want = [(len(path) - 1, ' ' if not item.kids else
                     '-' if path in self.unfolded else '+', item.func)
                    for path, item in rows]
        got = [(row.indent, row.icon, row.func) for row in screen.rows]
        if tall:
            if got != want:
                return 'the rows are %s instead of %s' % (show(got),
                                                          show(want)), 0
            return None, 0
        if want and not got:
            return 'no rows are shown', 0
        for offset in range(len(want) - len(got) + 1):
            if want[offset:offset + len(got)] == got:
                return None, offset
        return 'the rows are %s, which is no part of %s' % (show(got),
                                                            show(want)), 0


def show(rows):
    return '[%s]' % ', '.join(' ' * d + icon + func.split()[0]
                              for d, icon, func in rows)


class Session(object):
    """A viewer and its model."""

    def __init__(self, kind, family, start, size):
        self.size = size
        self.viewer = StatisticsViewer()
        self.viewer.set_profiler_class(CLASSES[kind])
        self.viewer.activate()
        self.stats = family
        self.model = View(kind, family)
        self.history = []
        if start is not None:
            self.step('result %d' % start)

    def step(self, event):
        self.history.append(event)
        viewer = self.viewer
        if event.startswith('result'):
            # always a new object, as if it were received.
            node = self.stats[int(event.split()[1])]
            viewer.set_result(trees.build_frozen(node, FrozenStatistics),
                              1.0, 2.0)
        else:
            left = viewer.widget.keypress(self.size, event)
            if event in ('q', 'x'):
                expect_equal(left, event, 'key left over')
                try:
                    viewer.unhandled_input(left)
                except urwid.ExitMainLoop:
                    expect(event == 'q', '%r quits', event)
                else:
                    expect(event != 'q', "'q' doesn't quit")
        tall = self.size == BIG
        loose = self.model.apply(event)
        screen = capture(viewer.widget, self.size)
        if not tall:
            if event in ('page down', 'page up', 'home', 'end'):
                loose = self.anywhere()
        self.model.settle(screen, loose, tall)
        return self.model.key()

    def anywhere(self):
        return [()] + [p for p, __ in self.model.rows()]


def tour(ctx, family, limit=None):
    """Takes every transition of the model which can be reached."""
    name, kind, results, start, events = family
    size = SMALL if name.startswith('small') else BIG
    if name == 'vim':
        viewer_module.bind_vim_keys()
    if name == 'game':
        viewer_module.bind_game_keys()
    session = Session(kind, results, start, size)
    graph = collections.defaultdict(dict)
    try:
        at = session.model.key()
        while True:
            route = plan(graph, at, events)
            if route is None:
                break
            for event in route:
                ctx.step()
                to = session.step(event)
                graph[at][event] = to
                at = to
                if limit and len(session.history) >= limit:
                    return
    except Exception as exc:
        exc.args = ('%s after %d events, the last of which are %r' % (
            exc, len(session.history), session.history[-8:]),)
        raise
    finally:
        for key in graph:
            ctx.state((name, repr_key(key)))
        ctx.outcome('%s: %d states' % (name, len(graph)))
        history.setdefault(name, session.history)


history = {}


def repr_key(key):
    return [sorted(k) if isinstance(k, frozenset) else k for k in key]


def plan(graph, at, events):
    """A shortest known route to an event which wasn't taken yet, with it."""
    queue, seen = collections.deque([(at, ())]), {at}
    while queue:
        state, route = queue.popleft()
        taken = graph[state]
        for event in events:
            if event not in taken:
                return route + (event,)
        for event, to in taken.items():
            if to not in seen:
                seen.add(to)
                queue.append((to, route + (event,)))
    return None


def replay_history(name, events, start):
    for family in QUICK + THOROUGH:
        if family[0] == name:
            break
    if name == 'vim':
        viewer_module.bind_vim_keys()
    if name == 'game':
        viewer_module.bind_game_keys()
    size = SMALL if name.startswith('small') else BIG
    session = Session(family[1], family[2], family[3] if start else None,
                      size)
    for event in events:
        session.step(event)


#: about how many events a tour takes, to balance the shards.
WEIGHTS = {'small long': 3000, 'small tall': 3000, 'updates layout': 10000, 'paused updates': 7000,
           'recursive all': 8000, 'all': 5000, 'updates': 4000,
           'all tracing': 4500, 'updates sort': 3000, 'layout': 1100,
           'tracing': 1000, 'updates all': 30000, 'all 2': 12000}


def deal(families, shard, n):
    """The families of a shard: the longest first, to the least busy."""
    busy = [0] * n
    for family in sorted(families, key=lambda f: -WEIGHTS.get(f[0], 500)):
        x = busy.index(min(busy))
        busy[x] += WEIGHTS.get(family[0], 500)
        if x == shard:
            yield family


def short(ctx, family, depth, shard, n):
    """All short histories from a fresh viewer."""
    name, kind, results, start, events = family
    for x, hist in enumerate(sequences(events, depth)):
        if x % n != shard or len(hist) < depth:
            # shorter ones are parts of the longest.
            continue
        ctx.step(len(hist))
        ctx.case({'family': name, 'start': False, 'history': list(hist)},
                 replay_history, name, hist, False)


def run(ctx):
    families = QUICK if ctx.quick else QUICK + THOROUGH

    def work(ctx, shard, n):
        ctx.case_timeout = 800
        for family in deal(families, shard, n):
            # the case is the history which was played.
            case = {'family': family[0], 'start': True, 'history': []}

            def go():
                try:
                    tour(ctx, family)
                finally:
                    case['history'] = history[family[0]]
            ctx.case(case, go)
            if ctx.samples and ctx.samples[-1] is case:
                ctx.samples[-1] = dict(case, history=case['history'][:30])
        ctx.case_timeout = 60
        short(ctx, SHORT, 3 if ctx.quick else 4, shard, n)
    ctx.shards(work)


def tour_starts(case):
    """Whether the first event of the history is the one of the start."""
    return case['start'] and case['history'][:1] and \
        case['history'][0].startswith('result') and \
        [f for f in QUICK + THOROUGH if f[0] == case['family']][0][3] \
        is not None


def replay(ctx, case):
    ctx.case(case, replay_history, case['family'],
             case['history'][1 if tour_starts(case) else 0:], case['start'])
