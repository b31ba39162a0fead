# -*- coding: utf-8 -*-
"""C30: what was saved or is served is what is viewed."""
from __future__ import absolute_import

from datetime import datetime
import itertools
import os
import pickle
import select
import shutil
import socket
import time

from mc import cli, trees
from mc.cli import invoke, Record, Scratch
from mc.core import expect, expect_equal, own_address
from mc.screen import capture

from profiling import sortkeys
from profiling.profiler import Profiler
from profiling.remote import pack_msg, PROFILER, RESULT, WELCOME
from profiling.remote.client import FailoverProfilingClient, ProfilingClient
from profiling.sampling import SamplingProfiler, SamplingStatisticsTable
from profiling.stats import RecordingStatistics, VoidRecordingStatistics
from profiling.tracing import TracingProfiler, TracingStatisticsTable
from profiling.viewer import fmt, StatisticsTable, StatisticsViewer

INFO = {
    'technique': 'exhaustive enumeration of results, files and of histories '
                 'of a served endpoint, viewed by the real command in-process '
                 'with real files and sockets; the rendered screens are '
                 'compared with each other and with reference rows',
    'bounds': 'dumps: all ordered forests up to 3 (quick) / 4 (thorough) '
              'functions with absent frames x 7 profiler classes (2 of '
              'the package, 5 derived, with own, inherited and overridden '
              'tables) x every pickle protocol; 9 file names, 4 times of modification, 3 '
              'pairs of session times; shown by the command, by make_viewer() '
              'and by run_viewer(), ended in 2 ways; served: all histories of '
              'up to 3 (quick) / 4 (thorough) events of a server (result, '
              'other class, disconnect, restart, cut message) at an endpoint '
              'and at a socket file',
    'assumptions': ['the terminal is a stand-in', 'real time is only a limit '
                    'for what has to happen'],
}

SIZE = (100, 20)


class PlainProfiler(Profiler):
    """A profiler with the default table."""

    def run(self):
        yield


class OwnTable(StatisticsTable):
    """A table of a user."""

    columns = [('FUNCTION', 'left', ('weight', 1), None),
               ('HITS', 'right', (6,), sortkeys.by_own_hits)]
    order = sortkeys.by_own_hits

    def make_cells(self, node, stat):
        yield fmt.make_stat_text(stat)
        yield fmt.make_int_or_na_text(stat.own_hits)


class OwnProfiler(PlainProfiler):

    table_class = OwnTable


class MixedProfiler(SamplingProfiler):
    """Shown by the table of the other profiler."""

    table_class = TracingStatisticsTable


class DerivedProfiler(TracingProfiler):
    """Shown as what it derives from."""


class GrandProfiler(MixedProfiler):
    """Shown as what it derives from, not as the first of them."""


import profiling.profiler as _profiler_module  # noqa: E402
for _c in (PlainProfiler, OwnProfiler, MixedProfiler, DerivedProfiler,
           GrandProfiler):
    _c.__module__ = 'profiling.profiler'
    _c.__qualname__ = _c.__name__
    setattr(_profiler_module, _c.__name__, _c)

CLASSES = {'tracing': TracingProfiler, 'sampling': SamplingProfiler,
           'plain': PlainProfiler, 'own': OwnProfiler, 'mixed': MixedProfiler,
           'derived': DerivedProfiler, 'grand': GrandProfiler}
TABLES = {'tracing': TracingStatisticsTable,
          'sampling': SamplingStatisticsTable, 'plain': StatisticsTable,
          'own': OwnTable, 'mixed': TracingStatisticsTable,
          'derived': TracingStatisticsTable, 'grand': TracingStatisticsTable}
ORDER = ['tracing', 'sampling', 'plain', 'own', 'mixed', 'derived', 'grand']
KEYS = [('a', 'x.py', 3, None), ('b', 'dir/y.py', 7, None),
        ('a', 'z.py', 3, None), ('a', 'x.py', 9, None)]
AT = datetime(2017, 3, 4, 5, 6, 7)


def forests(n):
    for k in range(n + 1):
        for f in trees.forests(k):
            yield f


def make_tree(shape, variant):
    """A reference tree with distinct hits and times; in each variant other
    ones of the functions are absent frames.
    """
    counter = itertools.count()

    def make(shape, siblings):
        x = next(counter)
        key = KEYS[x]
        void = bool(shape) and variant >> x & 1
        return trees.Node(key, 0 if void else x + 1,
                          0. if void else 2. ** (3 - x), None, x), shape

    def grow(shape):
        node, kids = make(shape, None)
        node.kids = [grow(k) for k in kids]
        return node
    kids = [grow(s) for s in shape]
    return trees.Node((None,) * 4, 0, 0., kids, None)


def profiler_with(kind, tree, times=(3., 4.)):
    p = CLASSES[kind]()
    trees.build_recording(tree, RecordingStatistics, p.stats,
                          VoidRecordingStatistics)
    p.result = lambda: (p.stats,) + times
    return p


def listing(stats):
    """The members of every node."""
    return [(s.name, s.filename, s.lineno, s.module, s.own_hits, s.deep_time,
             listing(s)) for s in stats]


def want_listing(node):
    def time_of(n):
        return n.time if n.hits or n.time else sum(time_of(k) for k in n.kids)
    return [k.key[:3] + (None, k.hits, time_of(k), want_listing(k))
            for k in node.kids]


def screen(viewer, keys=('>',)):
    """What the viewer shows."""
    out = []
    viewer.widget.render(SIZE, True)
    for key in ('',) + tuple(keys):
        if key:
            viewer.widget.keypress(SIZE, key)
        s = capture(viewer.widget, SIZE)
        out.append((s.header, s.kind, s.thead, s.empty,
                    [(r.indent, r.icon, r.func, r.cells, r.attrs, r.focused)
                     for r in s.rows]))
    return out


def check_viewer(viewer, kind, tree, times, title, at):
    expect(viewer.active and not viewer.paused, 'the viewer is inactive')
    table = viewer.table
    expect_equal(type(table), TABLES[kind], 'the table')
    expect_equal(listing(table.get_stats()), want_listing(tree),
                 'the statistics')
    expect_equal((table.cpu_time, table.wall_time), times, 'the times')
    expect_equal((table.title, table.at), (title, at), 'title and time')


def dump_case(scratch, kind, shape, variant, protocol, times=(3., 4.),
              name='x.prof', mtime=1234567890.0, end='quit', mono=False):
    tree = make_tree(shape, variant)
    p = profiler_with(kind, tree, times)
    if os.path.dirname(name):
        if not os.path.isdir(os.path.dirname(name)):
            os.makedirs(os.path.dirname(name))
    if end != 'quit':
        # a dump file is replaced.
        profiler_with('plain', make_tree(((), ((), ())), 0)).dump(name)
    if protocol is None:
        p.dump(name)
    else:
        p.dump(name, protocol)
    os.utime(name, (mtime, mtime))
    at = datetime.fromtimestamp(os.stat(name).st_mtime)
    title = os.path.basename(name)
    seen = []

    def on_loop(loop):
        check_viewer(loop.viewer, kind, tree, times, title, at)
        seen.append(screen(loop.viewer))
        if end == 'KeyboardInterrupt':
            raise KeyboardInterrupt
    args = ['view'] + (['--mono'] if mono else [])
    if name.startswith('-'):
        args.append('--')
    r = invoke(args + [name], on_loop=on_loop, stub_dump=False)
    expect(r.exc is None, 'ends by %r', r.exc)
    expect_equal(len(seen), 1, 'viewers run')
    expect_equal(r.colors, [1] if mono else [], 'colors')
    expect_equal((r.clients, r.sockets), ([], []), 'connections')
    expect_equal((r.out, r.err), ('', ''), 'output')
    with open(name, 'rb') as f:
        cls, __ = pickle.load(f)
        expect_equal(f.read(), b'', 'the rest of the file')
    expect(cls is CLASSES[kind], 'the class %r', cls)
    expect_equal(os.stat(name).st_mtime, mtime, 'the time of the file')
    # what the profiler shows by itself.
    check_viewer(p.make_viewer(title, at), kind, tree, times, title, at)
    expect_equal(screen(p.make_viewer(title=title, at=at)), seen[0],
                 'make_viewer()')
    r2 = Record()

    def on_run(loop):
        check_viewer(loop.viewer, kind, tree, times, title, at)
        seen.append(screen(loop.viewer))
        if end == 'KeyboardInterrupt':
            raise KeyboardInterrupt
    r2.on_loop = on_run

    def loop(self, *args, **kwargs):
        r2.viewers.append((args, kwargs))
        return cli.FakeLoop(r2, self)
    with cli.patches((StatisticsViewer, 'loop', loop)):
        try:
            p.run_viewer(title, at, mono, 1, b=2)
        except KeyboardInterrupt:
            expect(end == 'KeyboardInterrupt', 'interrupted')
        else:
            expect(end != 'KeyboardInterrupt', 'the interrupt is lost')
    expect_equal(r2.viewers, [((1,), {'b': 2})], 'arguments of the loop')
    expect_equal(r2.colors, [1] if mono else [], 'colors')
    expect_equal(seen[1:], seen[:1], 'run_viewer()')
    for title2, at2 in ((None, None), ('t', None), (None, AT)):
        check_viewer(p.make_viewer(title2, at2), kind, tree, times, title2,
                     at2)


NAMES = ['x.prof', './x.prof', 'dir/x.prof', 'dir.1/a/x', 'with space',
         u'\xe9t\xe9', '-dash', '127.0.0.1:80', 'no.dot:x']
MTIMES = [0.0, 1.5, 1234567890.0, 2000000000.25]
TIMES = [(3., 4.), (0., 0.), (0.125, 100.)]


# -- served


class ServedLoop(object):
    """Drives the viewer while a server of this process has a history."""

    def __init__(self, viewer, body):
        self.viewer = viewer
        self.body = body
        self.event_loop = self
        self.screen = cli.FakeScreen(Record())
        self.files = {}
        self.alarms = []
        self.handles = itertools.count()

    def watch_file(self, fd, callback):
        expect(fd not in self.files, 'watches %d twice', fd)
        self.files[fd] = callback
        return fd

    def remove_watch_file(self, fd):
        return self.files.pop(fd, None) is not None

    def alarm(self, seconds, callback):
        h = next(self.handles)
        self.alarms.append((seconds, h, callback))
        return h

    def remove_alarm(self, handle):
        self.alarms = [a for a in self.alarms if a[1] != handle]

    def set_alarm_in(self, *args):
        pass

    def run(self):
        self.body(self)

    def pump(self, cond, what):
        """Turns the loop until something is so.  The time of alarms comes as
        soon as nothing else happens.
        """
        limit = time.monotonic() + 20
        while not cond():
            expect(time.monotonic() < limit, 'never: %s', what)
            ready = select.select(list(self.files), [], [], .002)[0]
            for fd in ready:
                if fd in self.files:
                    self.files[fd]()
            if not ready and self.alarms:
                self.alarms.sort()
                self.alarms.pop(0)[2]()


class Served(object):
    """A listening socket and the one client of it."""

    def __init__(self, family, addr):
        self.family, self.addr = family, addr
        self.listener = self.client = None

    def listen(self):
        s = socket.socket(self.family)
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        s.bind(self.addr)
        s.listen(1)
        s.settimeout(20)
        self.listener = s
        self.addr = s.getsockname()

    def accept(self):
        self.client, __ = self.listener.accept()
        # the end of a connection leaves nothing behind.
        self.client.settimeout(20)

    def send(self, method, msg, protocol=2, cut=0):
        data = pack_msg(method, msg, protocol)
        self.client.sendall(data[:-cut] if cut else data)

    def drop(self):
        if self.client is not None:
            self.client.close()
            self.client = None

    def down(self):
        self.drop()
        if self.listener is not None:
            self.listener.close()
            self.listener = None
            if self.family == socket.AF_UNIX:
                os.unlink(self.addr)

    def close(self):
        self.drop()
        if self.listener is not None:
            self.listener.close()
            if self.family == socket.AF_UNIX:
                os.unlink(self.addr)


EVENTS = ['result', 'class', 'drop', 'restart', 'cut', 'stale']


def served_case(scratch, kind, history, mono):
    if kind == 'tcp':
        family, addr = socket.AF_INET, own_address()
    else:
        family, addr = socket.AF_UNIX, 'x.sock'
    server = Served(family, addr)
    real_socket = socket.socket
    server.listen()
    state = {'kind': 'tracing', 'n': 0}
    if kind == 'tcp':
        source = title = '%s:%d' % server.addr
    else:
        source = title = 'x.sock'
    shapes = [((),), ((), ((),)), (((),), ()), ((((),),),)]

    def greet():
        loop = state['loop']
        loop.pump(lambda: select.select([server.listener], [], [], 0)[0],
                  'connecting')
        server.accept()
        server.send(WELCOME, (2, '0'), 0)
        loop.pump(lambda: loop.viewer.active, 'active')
        send_class()

    def send_class():
        server.send(PROFILER, CLASSES[state['kind']])
        cls = TABLES[state['kind']]
        loop = state['loop']
        loop.pump(lambda: type(loop.viewer.table) is cls, 'the class')

    def send_result():
        state['n'] += 1
        n = state['n']
        tree = make_tree(shapes[n % len(shapes)], n)
        p = profiler_with(state['kind'], tree)
        times = (float(n), 2.0 * n)
        server.send(RESULT, (p.stats,) + times)
        loop = state['loop']
        loop.pump(lambda: loop.viewer.table.get_stats() is not None and
                  loop.viewer.table.cpu_time == times[0], 'the result')
        table = loop.viewer.table
        check_viewer(loop.viewer, state['kind'], tree, times, title, table.at)
        expect(state['begin'] <= table.at <= datetime.now(),
               'the time of the result: %r', table.at)
        screen(loop.viewer)
        state['shown'] = (tree, times)

    def lost():
        loop = state['loop']
        loop.pump(lambda: not loop.viewer.active, 'inactive')
        if 'shown' in state:
            tree, times = state['shown']
            expect_equal(listing(loop.viewer.table.get_stats()),
                         want_listing(tree), 'the statistics after the loss')

    def body(loop):
        state['loop'] = loop
        state['begin'] = datetime.now()
        expect(not loop.viewer.active, 'active before it is connected')
        greet()
        send_result()
        for event in history:
            if event == 'result':
                send_result()
            elif event == 'class':
                state['kind'] = ORDER[(ORDER.index(state['kind']) + 1 +
                                       3 * state['n']) % len(ORDER)]
                state.pop('shown', None)
                send_class()
                send_result()
            elif event == 'drop':
                server.drop()
                lost()
                greet()
                send_result()
            elif event == 'cut':
                server.send(RESULT, ('x' * 1000, 0, 0), cut=500)
                server.drop()
                lost()
                greet()
            elif event == 'restart':
                server.down()
                lost()
                turns = [0]

                def turn():
                    turns[0] += 1
                    return turns[0] > 4
                loop.pump(turn, 'turns')
                expect(not loop.viewer.active, 'active without a server')
                server.listen()
                greet()
                send_result()
            elif event == 'stale':
                # nobody listens though the socket file is there.
                server.drop()
                server.listener.close()
                lost()
                turns = [0]

                def turn():
                    turns[0] += 1
                    return turns[0] > 4
                loop.pump(turn, 'turns')
                expect(not loop.viewer.active, 'active without a server')
                if kind == 'sock':
                    os.unlink('x.sock')
                server.listen()
                greet()
                send_result()
        expect_equal(len(loop.files) + len(loop.alarms), 1,
                     'files watched and alarms')
    starts = [(c, 'start', c.start) for c in (FailoverProfilingClient,
                                              ProfilingClient)]
    ran = []

    def loop(self, *args, **kwargs):
        ran.append(self)
        return ServedLoop(self, body)
    failed = []

    def guarded(loop):
        try:
            inner(loop)
        except BaseException as exc:
            failed.append(exc)
            raise
    inner, body = body, guarded
    before = set(os.listdir('/proc/self/fd'))
    try:
        r = invoke(['view', source] + (['--mono'] if mono else []),
                   extra=starts + [(socket, 'socket', real_socket),
                                   (StatisticsViewer, 'loop', loop)])
    finally:
        server.close()
    if failed:
        raise failed[0]
    expect(r.exc is None, 'ends by %r', r.exc)
    expect_equal(len(ran), 1, 'viewers run')
    cli.close_new_fds(before)


def cases(ctx):
    out = []
    protocols = [None] + list(range(pickle.HIGHEST_PROTOCOL + 1))
    for shape in forests(3 if ctx.quick else 4):
        for variant in range(2 ** count(shape)):
            if not distinct(shape, variant):
                continue
            for kind in ORDER:
                few = kind not in ORDER[:3] and ctx.quick
                for protocol in protocols[:1] if few else protocols:
                    out.append(['dump', kind, shape, variant, protocol])
    for name in NAMES:
        for mtime in MTIMES:
            for times in TIMES:
                for end in ('quit', 'KeyboardInterrupt'):
                    for mono in (False, True):
                        kind = ORDER[len(out) % len(ORDER)]
                        out.append(['dump', kind, (((),), ()), 0, 2, times,
                                    name, mtime, end, mono])
    for n in range(4 if ctx.quick else 5):
        for history in itertools.product(EVENTS, repeat=n):
            for kind in ('tcp', 'sock'):
                out.append(['served', kind, history, bool(n % 2)])
    return out


def count(forest):
    return sum(1 + count(t) for t in forest)


def distinct(shape, variant):
    """Whether each chosen function has callees: only such can be absent."""
    n = itertools.count()

    def walk(t):
        x = next(n)
        if variant >> x & 1 and not t:
            return False
        return all([walk(k) for k in t])
    return all([walk(t) for t in shape])


FAMILIES = {'dump': dump_case, 'served': served_case}


def one(scratch, case):
    try:
        FAMILIES[case[0]](scratch, *case[1:])
    finally:
        os.chdir(scratch.path)
        for name in os.listdir(scratch.path):
            path = os.path.join(scratch.path, name)
            if os.path.isdir(path):
                shutil.rmtree(path)
            else:
                os.unlink(path)


def run(ctx):
    def work(ctx, shard, n):
        with Scratch() as scratch:
            for case in cases(ctx)[shard::n]:
                ctx.step(1 + len(case[2]) if case[0] == 'served' else 1)
                ctx.state(repr(case))
                ctx.case(case, one, scratch, case)
                ctx.outcome(case[0] + ' ' + case[1])
    ctx.shards(work)


def tuplify(x):
    return tuple(tuplify(y) for y in x) if isinstance(x, list) else x


def replay(ctx, case):
    with Scratch() as scratch:
        ctx.case(case, one, scratch, [tuplify(x) for x in case])
