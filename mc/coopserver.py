# -*- coding: utf-8 -*-
"""Runs the real gevent and asyncio servers on their real loops under a virtual
clock, with sockets which the explorer blocks, drains and breaks.

A history is a list of events; `Machine.run(history)` replays it, checks the
server whenever it is idle and returns the canonical state.  The events:

   ('connect', room, rush)  a client connects and receives `room` messages
                          before it stops receiving.
   ('leave', i, how)      the client closes its connection.
   ('tick',)              the next timer expires.
   ('block', i)           the client stops receiving.
   ('drain', i)           the client receives again.
   ('break', i, error)    the pending or next sending to the client fails.

"rush" tells that the next event happens before the server ran.
"""
from __future__ import absolute_import

import asyncio
import errno
import socket

import gevent
import gevent.event
import gevent.hub
from greenlet import getcurrent

from mc.core import expect, expect_equal, HarnessError
from mc.net import (
    check_stream, FakeSocket, Null, parse, RESULT, Wrapper)
import pickle

INTERVAL = 3.0


class Client(FakeSocket):
    """A connection with cooperative sending and receiving."""

    def __init__(self, env, index):
        FakeSocket.__init__(self, env, index)
        self.blocked = False
        self.broken = None
        self.sending = 0
        self.senders = []  # one per message: who sent it.
        self.wake = None  # of the blocked senders.
        self.eof = None
        self.partial = False


class Machine(object):

    def __init__(self, cfg):
        self.cfg = cfg
        self.protocol = cfg.get('protocol', 2)
        self.clients = []
        self.joined = {}
        self.known = {}
        self.inner = Null(cfg.get('payload', 0))
        self.profiler = self.inner
        for __ in range(cfg.get('wrappers', 0)):
            self.profiler = Wrapper(self.profiler)
        self.logs = []
        self.now = 0.0
        self.idle_checks = 0
        self.expired = False  # the last timer is the one of a send.

    def address(self, sock):
        return [('10.0.0.%d' % sock.index, 1000), '',
                ('::1', 1000, 0, 0)][self.cfg.get('family', 0)]

    # -- events

    def enabled(self):
        """The events which may happen next."""
        cfg = self.cfg
        out = []
        rushes = (0, 1) if cfg.get('rush') else (0,)
        if len(self.clients) < cfg['clients']:
            out += [('connect', room, r) for room in cfg.get('rooms', (99,))
                    for r in rushes]
        if self.can_tick():
            out.append(('tick', 0))
        for c in self.clients:
            if c.closed or c.left or c.failed:
                continue
            for how in cfg.get('leaves', [True]):
                out += [('leave', c.index, how, r) for r in rushes]
            if c.blocked:
                out += [('drain', c.index, r) for r in rushes]
            elif cfg.get('blocks'):
                out.append(('block', c.index, 0))
            if not c.broken:
                for e in cfg.get('errors', ()):
                    out.append(('break', c.index, e, 0))
        return out

    def scripted(self, token):
        """The event of a token of a long history, if it may happen."""
        here = [c for c in self.clients
                if not c.closed and not c.left and not c.failed]
        if token == 'c':
            return 'connect', 99, 0
        elif token in 'fl' and here:
            # the first or the last one leaves.
            return 'leave', here[0 if token == 'f' else -1].index, True, 0
        elif token == 'x' and here and not here[-1].broken:
            return 'break', here[-1].index, errno.EPIPE, 0
        elif token == 't' and self.can_tick():
            return 'tick', 0

    def happen(self, event):
        kind = event[0]
        if kind == 'connect':
            c = self.new_client(len(self.clients))
            c.room = event[1]
            self.clients.append(c)
            self.joined[c] = self.inner.n
            self.connect(c)
        elif kind == 'tick':
            self.tick()
        else:
            c = self.clients[event[1]]
            if kind == 'leave':
                c.left = event[2]
                self.known[c] = self.result_of(c)
                self.leave(c)
            elif kind == 'block':
                c.blocked = True
            elif kind == 'drain':
                c.blocked = False
                self.wake(c)
            elif kind == 'break':
                c.broken = event[2]
                self.wake(c)
        return event[-1]

    def result_of(self, c):
        """The latest result which surely arrived."""
        return 0

    def run(self, history):
        """Replays.  Returns the canonical state, None if it's impossible."""
        self.open()
        scripted = history and isinstance(history[0], str)
        try:
            rush = 0
            for x, event in enumerate(history):
                if isinstance(event, str):
                    event = self.scripted(event)
                    if event is None:
                        continue
                elif tuple(event) not in self.enabled():
                    return None
                was = self.inner.is_running(), self.inner.n
                rushed = rush
                rush = self.happen(tuple(event))
                if not rush:
                    self.settle()
                    if not scripted or self.errors or x % 8 == 7:
                        self.check(event, was, rushed)
            self.next_events = () if scripted else self.enabled()
            if not scripted and rush_pending(history):
                # a state between two events.
                return ('rush', history[-1], self.canon_of(history))
            return self.canon()
        finally:
            self.close()

    def canon_of(self, history):
        return tuple(map(tuple, history))

    def blocked_sends(self):
        return [c for c in self.clients if c.sending and not c.closed]

    # -- checks

    def check(self, event, was, rushed):
        self.idle_checks += 1
        n = self.inner.n
        ran, n0 = was
        blocked = self.blocked_sends()
        if blocked:
            expect(self.timers(), 'waits forever for %r which do not receive',
                   blocked)
        serving = []
        for c in self.clients:
            healthy = not c.left and not c.failed
            if healthy:
                expect_equal(c.closed, 0, 'number of times healthy %r is '
                             'closed' % c)
            elif not c.sending:
                expect(c.closed, '%r which %s is not closed', c,
                       'left' if c.left else 'failed')
            if healthy and not c.blocked and not c.sending and \
                    not c.broken and c not in self.waiting_behind(blocked):
                serving.append(c)
            first = self.joined[c] or 1
            complete = healthy and not c.sending
            messages, rest = parse(c.received)
            results = [int(pickle.loads(d)[1]) for m, d in messages
                       if m == RESULT]
            if c.partial:
                expect(not complete or rest == b'', 'stuck in a message')
            # results while it's greeted may be newer ones than the next.
            gaps = [x for x in range(len(results) - 1)
                    if results[x + 1] != results[x] + 1]
            for x in gaps:
                expect(results[x + 1] > results[x], 'results %r' % results)
                expect(c.senders[x + 3] == c.senders[0],
                       '%r missed results: %r', c, results)
            if not gaps:
                last = n if c in serving and not blocked else None
                check_stream(c, Null, self.protocol, (first, max(first, n)),
                             last, complete)
            if results and not gaps and self.joined[c]:
                expect(results[0] >= self.joined[c], 'an old result')
        running = self.inner.is_running()
        if running != self.profiler.is_running():
            expect(False, 'the wrapper is running=%r', not running)
        greeted = [c for c in self.clients if not c.left and not c.failed and
                   c not in blocked and len(parse(c.received)[0]) >= 2]
        if greeted and not blocked:
            expect(running, 'the profiler is not running for %r', greeted)
        if running:
            expect(self.timers(), 'profiling has no end')
        expect(n - n0 <= 1, '%d results at one event', n - n0)
        if event[0] == 'tick' and ran and not rushed and not self.expired:
            if not greeted and not blocked:
                expect(not running, 'the profiler goes on without a client')
        if n > n0:
            expect(event[0] in ('tick',) or was[0], 'a result of nothing')
        if event[0] not in ('tick', 'drain', 'break', 'leave'):
            expect_equal(n, n0, 'results at %r' % (event,))
        if not ran and not running:
            expect_equal(n, n0, 'results while not running')

    def can_tick(self):
        return bool(self.timers())

    def waiting_behind(self, blocked):
        """Clients which may have to wait for a blocked one."""
        return self.clients if blocked else ()

    def canon(self):
        n = self.inner.n
        out = []
        for c in self.clients:
            messages, rest = parse(c.received)
            results = [int(pickle.loads(d)[1]) for m, d in messages
                       if m == RESULT]
            out.append((bool(c.left), min(c.closed, 1), c.blocked, c.failed,
                        c.broken, c.sending, min(len(messages), 2),
                        bool(rest), n - results[-1] if results else None,
                        (self.joined[c] or 1) == n,
                        c.room if c.room < 50 else None))
        simple = []
        for name, value in sorted(vars(self.server).items()):
            if isinstance(value, (bool, type(None))):
                simple.append((name, value))
            elif isinstance(value, set):
                simple.append((name, len(value)))
            elif isinstance(value, gevent.Greenlet):
                simple.append((name, value.dead))
        return (tuple(out), self.inner.is_running(), min(n, 1),
                tuple(simple), self.canon_timers())


def rush_pending(history):
    return bool(history and history[-1][-1])


# -- gevent ------------------------------------------------------------------


class VirtualTimer(object):

    def __init__(self, machine, after):
        self.machine = machine
        self.after = after
        self.callback = None

    active = property(lambda self: self.callback is not None)
    pending = False

    def start(self, callback, *args, **kwargs):
        self.due = self.machine.now + self.after
        self.callback, self.args = callback, args
        self.machine.order += 1
        self.nth = self.machine.order
        self.machine.pending_timers.append(self)

    def stop(self):
        self.callback = None
        if self in self.machine.pending_timers:
            self.machine.pending_timers.remove(self)

    close = stop

    def __enter__(self):
        return self

    def __exit__(self, *exc_info):
        self.stop()

    def fire(self):
        callback, args = self.callback, self.args
        self.stop()
        if callback is not None:
            callback(*args)


class GeventMachine(Machine):

    def __init__(self, cfg):
        Machine.__init__(self, cfg)
        from profiling.remote.gevent import GeventProfilingServer
        self.server = GeventProfilingServer(
            ('127.0.0.1', 0), self.profiler, INTERVAL, log=self.logs.append,
            pickle_protocol=self.protocol)
        # as when it is started but without a listening socket.
        self.server.set_handle(None)
        self.pending_timers = []
        self.order = 0
        self.errors = []
        self.closing = False

    def open(self):
        self.hub = gevent.hub.get_hub()
        self.hub.loop.timer = lambda after, *args, **kwargs: \
            VirtualTimer(self, after)
        self.hub.handle_error = self.handle_error

    def close(self):
        # let all greenlets end.
        self.closing = True
        for c in self.clients:
            c.left, c.blocked, c.failed = True, False, False
            c.wake.set()
            c.eof.set()
        for __ in range(8):
            for x in range(8):
                gevent.sleep(0)
            for t in list(self.pending_timers):
                self.hub.loop.run_callback(t.fire)
        del self.hub.loop.timer
        del self.hub.handle_error

    def handle_error(self, context, type, value, tb):
        if issubclass(type, (gevent.GreenletExit, SystemExit)):
            return
        self.errors.append((context, value))

    def new_client(self, index):
        c = Client(self, index)
        c.wake = gevent.event.Event()
        c.eof = gevent.event.Event()
        return c

    def on_close(self, sock):
        expect(self.closing or sock.left or sock.failed,
               'healthy %r is closed', sock)

    def connect(self, c):
        self.server.do_handle(c, self.address(c))

    def leave(self, c):
        c.eof.set()
        c.wake.set()

    def wake(self, c):
        c.wake.set()

    def recv(self, c, size):
        c.eof.wait()
        c._alive()
        if c.left is True or not c.left:
            return b''
        if c.left == 'timeout':
            raise socket.timeout('timed out')
        raise socket.error(c.left, 'injected')

    def send(self, c, data, flags, everything):
        c.senders.append(id(getcurrent()))
        if c.room <= 0:
            c.blocked, c.room = True, 99
        c.room -= 1
        if not (c.blocked or c.broken or c.left):
            c.put(data)
            return len(data)
        half = len(data) // 2 if len(data) > 1 else 0
        if c.broken and not c.blocked:
            c.put(data[:half])
            c.failed = True
            raise socket.error(c.broken, 'injected')
        if c.left and not c.blocked:
            if c.left is True:
                # lost in the buffer.
                return len(data)
            c.failed = True
            raise socket.error(c.left if c.left != 'timeout' else
                               errno.EPIPE, 'injected')
        c.put(data[:half])
        c.partial = True
        c.sending += 1
        try:
            while True:
                c._alive()
                if c.broken or c.left:
                    raise socket.error(c.broken or errno.EPIPE, 'injected')
                if not c.blocked:
                    break
                c.wake.clear()
                if not c.wake.wait(c.timeout):
                    raise socket.timeout('timed out')
        except BaseException:
            c.failed = True
            raise
        finally:
            c.sending -= 1
        c.put(data[half:])
        c.partial = False

    def timers(self):
        return self.pending_timers

    def can_tick(self):
        if not self.pending_timers:
            return False
        # unless something that is sent may take as long as the interval.
        timer = self.next_timer()
        return self.cfg.get('expire') or not self.is_timeout(timer)

    def is_timeout(self, timer):
        return isinstance(getattr(timer.callback, '__self__', None),
                          gevent.Timeout)

    def next_timer(self):
        return min(self.pending_timers, key=lambda t: (t.due, t.nth))

    def tick(self):
        timer = self.next_timer()
        self.expired = self.is_timeout(timer)
        self.now = max(self.now, timer.due)
        self.hub.loop.run_callback(timer.fire)

    def settle(self):
        for x in range(1000):
            gevent.sleep(0)
            if not self.hub.loop._callbacks:
                break
        else:
            expect(False, 'never becomes idle')
        if self.errors:
            context, value = self.errors[0]
            raise value

    def canon_timers(self):
        return tuple(sorted(round(t.due - self.now, 3)
                            for t in self.pending_timers))


# -- asyncio -----------------------------------------------------------------


class Reader(object):

    def __init__(self, client):
        self.client = client

    async def read(self, n=-1):
        await asyncio.shield(self.client.eof)
        if self.client.left is True:
            return b''
        raise OSError(self.client.left, 'injected')


class Writer(object):

    def __init__(self, client):
        self.client = client
        self.env = client.env

    def write(self, data):
        c = self.client
        expect(not c.closed, 'something is sent to the closed %r', c)
        c.senders.append(0)
        if c.left:
            # asyncio logs it only.
            return
        c.put(bytes(data))

    def writelines(self, lines):
        self.write(b''.join(lines))

    async def drain(self):
        pass

    def close(self):
        self.client.close()

    def is_closing(self):
        return bool(self.client.closed)

    async def wait_closed(self):
        pass

    def get_extra_info(self, name, default=None):
        if name == 'peername':
            if self.client.left:
                return None
            return self.env.address(self.client)
        return default


class VirtualLoop(asyncio.SelectorEventLoop):
    """Its timers expire whenever the explorer wants it."""

    offset = 0.0

    def time(self):
        return self.offset


class AsyncioMachine(Machine):

    def __init__(self, cfg):
        Machine.__init__(self, cfg)
        from profiling.remote.asyncio import AsyncIOProfilingServer
        self.server = AsyncIOProfilingServer(
            self.profiler, INTERVAL, log=self.logs.append,
            pickle_protocol=self.protocol)
        self.errors = []

    def open(self):
        self.loop = VirtualLoop()
        self.loop.set_exception_handler(
            lambda loop, context: self.errors.append(context))
        asyncio.set_event_loop(self.loop)

    def close(self):
        for task in asyncio.all_tasks(self.loop):
            task.cancel()
        for __ in range(3):
            self.step()
        self.loop.close()
        asyncio.set_event_loop(None)

    def step(self):
        self.loop.call_soon(self.loop.stop)
        self.loop.run_forever()

    def new_client(self, index):
        c = Client(self, index)
        c.eof = self.loop.create_future()
        return c

    def on_close(self, sock):
        expect(sock.left or sock.failed, 'healthy %r is closed', sock)

    def connect(self, c):
        self.loop.call_soon(self.server, Reader(c), Writer(c))

    def leave(self, c):
        c.eof.set_result(None)

    def wake(self, c):
        pass

    def timers(self):
        return [t for t in self.loop._scheduled if not t.cancelled()]

    def tick(self):
        due = min(t.when() for t in self.timers())
        self.loop.offset = max(self.loop.offset, due)

    def settle(self):
        for x in range(200):
            self.step()
            if not self.loop._ready:
                break
        else:
            expect(False, 'never becomes idle')
        if self.errors:
            context = self.errors[0]
            raise context.get('exception') or HarnessError(repr(context))

    def canon_timers(self):
        return tuple(sorted(round(t.when() - self.loop.offset, 3)
                            for t in self.timers()))


MACHINES = {'gevent': GeventMachine, 'asyncio': AsyncioMachine}
