# -*- coding: utf-8 -*-
"""C18: the failover client always keeps trying and recovers."""
from __future__ import absolute_import

import errno
import os
import shutil
import socket
import tempfile
import time

from mc.core import (
    Chooser, expect, expect_equal, explore_dealt, own_address, PeriodicChooser,
    words)

from profiling.remote import pack_msg, PROFILER, RESULT, WELCOME
from profiling.remote.client import FailoverProfilingClient, ProfilingClient
from profiling.stats import FrozenStatistics
from profiling.tracing import TracingProfiler

INFO = {
    'technique': 'explicit-state model checking of the real failover client: '
                 'all sequences of outcomes of connecting and receiving on '
                 'model sockets and a model event loop; conformance runs '
                 'with real sockets on the real urwid event loop',
    'bounds': 'all histories of 6 (thorough 8) outcomes, of 4 kinds of '
              'connecting, 3 messages, 5 errors, 2 kinds of ends; 5 failover '
              'intervals and 3 socket families; descriptors are reused as by '
              'the system; 150 outcomes which repeat every 1 or 2 '
              'outcomes of connecting and 1 or 2 (3) of receiving',
    'assumptions': ['connecting fails with no other errors than refusal or a '
                    'missing socket file (others are reported)'],
}

CONNECTING = [0, errno.EINPROGRESS, errno.ECONNREFUSED, errno.ENOENT]
ERRORS = [errno.ECONNRESET, errno.ECONNREFUSED, errno.ETIMEDOUT,
          errno.EHOSTUNREACH, errno.EPIPE]
MESSAGES = {
    'welcome': pack_msg(WELCOME, (2, '1')),
    'profiler': pack_msg(PROFILER, TracingProfiler),
    'result': pack_msg(RESULT, (FrozenStatistics('r'), 1.0, 2.0)),
}
RECEIVING = sorted(MESSAGES) + ['end', 'cut'] + ERRORS


class FakeSocket(object):

    def __init__(self, world, *args):
        self.world = world
        self.args = args
        self.fd = world.allocate(self)
        self.closed = False
        self.blocking = True
        self.connected = False
        self.incoming = b''
        self.ended = None

    def fileno(self):
        return -1 if self.closed else self.fd

    def setblocking(self, flag):
        self.blocking = bool(flag)

    def settimeout(self, timeout):
        self.blocking = timeout != 0

    def setsockopt(self, *args):
        pass

    def connect_ex(self, addr):
        expect(not self.closed, 'connects by a closed socket')
        expect(not self.connected, 'connects twice')
        expect(not self.blocking, 'connects and blocks')
        expect_equal(addr, self.world.addr, 'address')
        code = self.world.outcome
        if code in (0, errno.EINPROGRESS):
            self.connected = True
        self.world.connects += 1
        return code

    def connect(self, addr):
        code = self.connect_ex(addr)
        if code:
            raise socket.error(code, os.strerror(code))

    def recv(self, size, flags=0):
        expect(not self.closed, 'receives from a closed socket')
        if self.incoming:
            data, self.incoming = self.incoming[:size], self.incoming[size:]
            return data
        expect(self.ended is not None, 'would block for receiving')
        if self.ended == 0:
            return b''
        raise socket.error(self.ended, 'injected')

    def close(self):
        if not self.closed:
            self.closed = True
            del self.world.fds[self.fd]

    def shutdown(self, how):
        pass


class World(object):

    def __init__(self, interval, family, fresh):
        self.fresh = fresh
        self.fds = {}
        self.sockets = []
        self.watched = {}
        self.alarms = []
        self.active = None
        self.outcome = None
        self.connects = 0
        self.log = []
        self.addr = '/x.sock' if family == getattr(socket, 'AF_UNIX', 1) \
            else ('10.0.0.1', 8912)
        self.interval = interval
        self.family = family

    def allocate(self, sock):
        fd = 5
        while fd in self.fds:
            fd += 1
        if self.fresh:
            # another one was opened meanwhile.
            fd += len(self.sockets)
        self.fds[fd] = sock
        self.sockets.append(sock)
        return fd

    def socket(self, *args, **kwargs):
        family = args[0] if args else kwargs.get('family')
        expect_equal(family, self.family, 'family')
        return FakeSocket(self, *args)

    # -- event loop

    def watch_file(self, fd, callback):
        expect(fd in self.fds, 'watches the closed descriptor %r', fd)
        expect(fd not in self.watched, 'watches %r twice', fd)
        self.watched[fd] = callback
        return fd

    def remove_watch_file(self, fd):
        return self.watched.pop(fd, None) is not None

    def alarm(self, seconds, callback):
        handle = [seconds, callback]
        self.alarms.append(handle)
        return handle

    def remove_alarm(self, handle):
        if handle in self.alarms:
            self.alarms.remove(handle)
            return True
        return False

    # -- viewer

    def activate(self):
        self.active = True
        self.log.append('activate')

    def inactivate(self):
        self.active = False
        self.log.append('inactivate')

    def set_profiler_class(self, profiler_class):
        self.log.append('profiler')

    def set_result(self, stats, cpu_time, wall_time, title=None, at=None):
        self.log.append('result')


def run_world(world, chooser, depth):
    """One history."""
    real = socket.socket
    socket.socket = world.socket
    trace = []
    try:
        client = FailoverProfilingClient(world, world, world.addr,
                                         world.family)
        if world.interval is not None:
            client.failover_interval = world.interval
        interval = client.failover_interval
        if world.interval is None:
            expect_equal(interval, 1, 'default failover interval')
        client.start()
        expect_equal([s for s, __ in world.alarms], [0], 'alarms')
        active = None
        for __ in range(depth):
            if world.alarms:
                # connect.
                seconds, callback = world.alarms.pop()
                code = chooser.pick(CONNECTING, 'connect', 1)
                trace.append(('connect', code))
                world.outcome = code
                connects = world.connects
                callback()
                expect_equal(world.connects - connects, 1, 'attempts')
                if code in (0, errno.EINPROGRESS):
                    want = None
                else:
                    want = interval
                    active = False if active else active
            else:
                what = chooser.pick(RECEIVING, 'recv', 1)
                trace.append(('recv', what))
                (fd, callback), = world.watched.items()
                sock = world.fds[fd]
                del world.log[:]
                want = None
                if what in MESSAGES:
                    sock.incoming = MESSAGES[what]
                    callback()
                    expect_equal(sock.incoming, b'', 'left')
                    expect_equal(world.log, {
                        'welcome': ['activate'],
                        'profiler': ['profiler'],
                        'result': ['result']}[what], 'effect')
                    if what == 'welcome':
                        active = True
                else:
                    if what == 'cut':
                        sock.incoming = MESSAGES['result'][:-3]
                    sock.ended = what if isinstance(what, int) else 0
                    callback()
                    active = False
                    want = interval if what == errno.ECONNREFUSED else 0
            expect(bool(world.active) == bool(active),
                   'the viewer is active=%r', world.active)
            open_socks = [s for s in world.sockets if not s.closed]
            expect_equal(len(open_socks), 1, 'open sockets')
            sock, = open_socks
            expect_equal(client.sock, sock, 'socket')
            if want is None:
                expect_equal(list(world.watched), [sock.fd], 'watched')
                expect_equal(world.alarms, [], 'alarms')
            else:
                expect_equal(world.watched, {}, 'watched')
                expect_equal([s for s, __ in world.alarms], [want],
                             'delays of alarms')
    finally:
        socket.socket = real
    return trace


def simple_case(family, what):
    """The client without failover."""
    world = World(None, family, False)
    real = socket.socket
    socket.socket = world.socket
    try:
        sock = FakeSocket(world)
        sock.connected = True
        client = ProfilingClient(world, world, sock)
        client.start()
        for m in ('welcome', 'profiler', 'result', 'welcome'):
            sock.incoming = MESSAGES[m]
            world.watched[sock.fd]()
        expect_equal(world.log, ['activate', 'profiler', 'result',
                                 'activate'], 'effects')
        if what == 'cut':
            sock.incoming = MESSAGES['result'][:-3]
        sock.ended = what if isinstance(what, int) else 0
        world.watched[sock.fd]()
        expect_equal(world.log[4:], ['inactivate'], 'effects')
        expect(not world.watched and not world.alarms, 'it tries again')
    finally:
        socket.socket = real


# -- conformance --------------------------------------------------------------


def real_case(family, script):
    """Servers which come and go, with real sockets and the urwid loop.

    :param script: a list of 'down' (nobody listens for a while), 'up' (a
                   server sends a welcome and a result and goes away), 'cut'
                   (it breaks in the message) or 'reset'.
    """
    import struct
    import urwid
    scratch = tempfile.mkdtemp(prefix='c18.')
    listener = [None]
    viewer = World(None, family, False)
    conns = []
    try:
        if family == socket.AF_UNIX:
            addr = os.path.join(scratch, 'x.sock')
        else:
            addr = own_address()
        loop = urwid.SelectEventLoop()
        client = FailoverProfilingClient(viewer, loop, addr, family)
        client.failover_interval = 0.01
        steps = list(script)
        deadline = time.monotonic() + 40

        def listen():
            s = socket.socket(family)
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            if family == socket.AF_UNIX and os.path.exists(addr):
                os.unlink(addr)
            s.bind(addr)
            s.listen(4)
            s.setblocking(0)
            listener[0] = s

        def hang_up(step):
            conn = conns.pop()
            if step == 'reset':
                conn.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER,
                                struct.pack('ii', 1, 0))
            conn.close()

        state = {'at': 0, 'until': None, 'served': 0}

        def tick():
            expect(time.monotonic() < deadline, 'no recovery')
            if state['at'] >= len(steps):
                raise urwid.ExitMainLoop
            step = steps[state['at']]
            if step in ('down', 'missing'):
                if state['until'] is None:
                    if listener[0]:
                        listener[0].close()
                        listener[0] = None
                    if step == 'missing' and family == socket.AF_UNIX:
                        if os.path.exists(addr):
                            os.unlink(addr)
                    state['until'] = time.monotonic() + 0.05
                elif time.monotonic() > state['until']:
                    state['until'] = None
                    state['at'] += 1
            elif state['until'] is None:
                if not listener[0]:
                    listen()
                try:
                    conn, __ = listener[0].accept()
                except socket.error:
                    pass
                else:
                    conn.setblocking(1)
                    conns.append(conn)
                    data = b''.join(MESSAGES[m] for m in
                                    ('welcome', 'profiler', 'result'))
                    if step == 'cut':
                        data += MESSAGES['result'][:9]
                    conn.sendall(data)
                    state['until'] = 1
                    if step == 'cut':
                        # receiving the rest blocks this thread.
                        hang_up(step)
            elif conns:
                if viewer.log.count('result') > state['served']:
                    expect(viewer.active, 'not active while it is served')
                    hang_up(step)
            elif not viewer.active and \
                    viewer.log.count('result') > state['served']:
                state['until'] = None
                state['served'] += 1
                state['at'] += 1
            loop.alarm(0.003, tick)
        client.start()
        loop.alarm(0, tick)
        loop.run()
        expect_equal(viewer.log.count('result'), state['served'], 'results')
        client.sock.close()
    finally:
        for s in conns + [listener[0]]:
            if s:
                s.close()
        shutil.rmtree(scratch)


SCRIPTS = [['up'], ['down', 'up', 'up'], ['up', 'down', 'cut', 'reset', 'up'],
           ['missing', 'up', 'missing', 'up', 'down', 'up', 'reset', 'up']]


def cases(quick):
    for family in (socket.AF_INET, socket.AF_UNIX):
        for what in ['end', 'cut'] + ERRORS:
            yield {'kind': 'simple', 'family': int(family), 'what': what}
        for script in SCRIPTS:
            yield {'kind': 'real', 'family': int(family), 'script': script}


def dispatch(ctx, case):
    if case['kind'] == 'simple':
        ctx.case(case, simple_case, case['family'], case['what'])
    elif case['kind'] == 'real':
        ctx.case(case, real_case, case['family'], case['script'])
    else:
        ctx.case(case, run_world, World(case['interval'], case['family'],
                                           case['fresh']),
                 Chooser(case['choices']), case['depth'])


def configs(quick):
    for fresh in (False, True):
        yield None, int(socket.AF_INET), fresh, 6 if quick else 8
        for interval in (0.5, 3, 60):
            yield interval, int(socket.AF_INET), fresh, 4
        yield 2, int(socket.AF_UNIX), fresh, 5 if quick else 7
        yield 7, int(socket.AF_INET6), fresh, 4


def run(ctx):
    def shard(ctx, shard, n):
        for x, case in enumerate(cases(ctx.quick)):
            if x % n == shard:
                dispatch(ctx, case)
                ctx.step()
                ctx.state(sorted(case.items(), key=str))
        for interval, family, fresh, depth in configs(ctx.quick):
            def once(chooser):
                world = World(interval, family, fresh)
                box = []
                if chooser.duplicate:
                    try:
                        run_world(world, chooser, depth)
                    except Exception:
                        pass
                    return
                ctx.case({'kind': 'world', 'interval': interval,
                          'family': family, 'depth': depth,
                          'fresh': fresh,
                          'choices': chooser.choices},
                         lambda: box.append(run_world(world, chooser, depth)))
                ctx.step(depth)
                ctx.state((interval, family, chooser.choices))
                ctx.outcome((len(world.sockets), world.active))
            for __ in explore_dealt(once, shard, n, None):
                pass
        # long histories.
        few = [RECEIVING.index(r) for r in
               ('welcome', 'result', 'end', 'cut', errno.ECONNRESET,
                errno.ECONNREFUSED)]
        x = 0
        for connecting in words(range(len(CONNECTING)), 2):
            for receiving in words(few, 2 if ctx.quick else 3):
                x += 1
                if x % n != shard:
                    continue
                chooser = PeriodicChooser({'connect': connecting,
                                           'recv': receiving})
                world = World(None, int(socket.AF_INET), False)
                ctx.case({'kind': 'world', 'interval': None,
                          'family': int(socket.AF_INET), 'depth': 150,
                          'fresh': False, 'choices': chooser.choices},
                         run_world, world, chooser, 150)
                ctx.step(150)
                ctx.state((connecting, receiving))
    ctx.shards(shard)


replay = dispatch
