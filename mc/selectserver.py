# -*- coding: utf-8 -*-
"""Runs the real select-based server in a model network: every call of select()
is answered with an event which the explorer chooses.
"""
from __future__ import absolute_import

import errno
import itertools
import socket

from mc import env
env.install('select.select', *env.CLOCKS)
from mc.core import expect, expect_equal
from mc.net import (
    check_stream, FakeSocket, Null, StopServer, Wrapper)

from profiling.remote.select import SelectProfilingServer

INTERVAL = 3.0

#: What may happen when something is sent.
ERRORS = [errno.EPIPE, errno.ECONNRESET, errno.EBADF, errno.ETIMEDOUT,
          errno.ENOBUFS, errno.EHOSTUNREACH]


class Listener(object):

    def __init__(self, world):
        self.world = world

    def fileno(self):
        return 3

    def accept(self):
        return self.world.accept()

    def getsockname(self):
        return ('0.0.0.0', 8912)


class World(object):

    def __init__(self, chooser, cfg):
        self.chooser = chooser
        self.cfg = cfg
        self.now = 1000.0
        self.clients = []  # all which ever connected.
        self.joined = {}  # client -> latest result when it was accepted.
        self.known = {}  # client -> results it must have got when it left.
        self.queue = []  # waiting to be accepted.
        self.calls = 0
        self.faults = cfg.get('faults', 0)
        self.listener = Listener(self)
        self.inner = Null(cfg.get('payload', 0))
        self.profiler = self.inner
        for __ in range(cfg.get('wrappers', 0)):
            self.profiler = Wrapper(self.profiler)
        self.logs = []
        self.server = SelectProfilingServer(
            self.listener, self.profiler, INTERVAL, log=self.logs.append,
            pickle_protocol=cfg.get('protocol', 2))
        self.trace = []
        self.last_n = 0
        self.states = []
        self.in_send = 0
        self.token = 0

    # -- network

    def address(self, sock):
        return [('10.0.0.%d' % sock.index, 1000), '',
                ('::1', 1000, 0, 0)][self.cfg.get('family', 0)]

    def connected(self):
        """The clients which the server has to serve."""
        return [c for c in self.clients if not c.closed and not c.failed]

    def on_close(self, sock):
        expect_equal(sock.closed, 1, 'number of times %r is closed' % sock)
        expect(sock.left or sock.failed, 'a healthy client is closed: %r',
               sock)

    def accept(self):
        sock = self.queue.pop(0)
        self.clients.append(sock)
        self.joined[sock] = self.inner.n
        return sock, self.address(sock)

    def recv(self, sock, size):
        expect(sock.left, 'would block at receiving from %r', sock)
        code = sock.left
        if code is True:
            return b''
        if code == 'timeout':
            raise socket.timeout('timed out')
        raise socket.error(code, 'injected')

    def send(self, sock, data, flags, everything):
        outcomes = ['ok']
        if self.cfg.get('small buffers'):
            outcomes = ['drains'] + outcomes
        if self.faults:
            cut = sorted(set([0, 1, 5, len(data) // 2, len(data) - 1]) -
                         set([len(data)])) if self.cfg.get('cuts') else \
                [0, len(data) // 2]
            outcomes += [(e, c) for e in ERRORS for c in
                         (cut if e == errno.EPIPE else cut[:2])]
            outcomes += [('stalls', c) for c in cut]
        if sock.left and not self.cfg.get('silent', True):
            outcomes = [(errno.EPIPE, 0), (errno.ECONNRESET, 0), 'ok']
        x = self.chooser(len(outcomes), 'send', 1)
        outcome = outcomes[x]
        if sock.breaks:
            outcome = errno.ECONNRESET, len(data) // 2
        nonblocking = sock.timeout == 0.0 or \
            flags & getattr(socket, 'MSG_DONTWAIT', 0)
        if outcome == 'ok':
            sock.put(data)
            return len(data)
        if outcome == 'drains':
            # the buffer is smaller than the data but the client receives.
            half = max(1, len(data) // 2)
            if not everything:
                sock.put(data[:half])
                return half
            if nonblocking:
                sock.put(data[:half])
                sock.failed = 'wrongly'
                raise socket.error(errno.EAGAIN, 'injected')
            sock.put(data)
            return
        self.trace.append((sock.index, outcome))
        self.faults -= 1
        kind, cut = outcome
        sock.put(data[:cut])
        sock.failed = True
        if kind == 'stalls':
            if nonblocking:
                raise socket.error(errno.EAGAIN, 'injected')
            expect(sock.timeout is not None, 'waits forever for %r which '
                   'does not receive', sock)
            expect(sock.timeout <= 10 * INTERVAL, 'waits %r seconds for a '
                   'client which does not receive', sock.timeout)
            self.now += sock.timeout
            raise socket.timeout('timed out')
        raise socket.error(kind, 'injected')

    # -- events

    def events(self, socks):
        """What may happen while the server waits."""
        out = [()]
        singles = []
        for __ in range(self.cfg['clients'] - len(self.clients) -
                        len(self.queue)):
            singles.append('connect')
        here = [c for c in self.connected() if not c.left]
        leaves = self.cfg.get('leaves', [True])
        for c in here:
            singles += [(c, how) for how in leaves]
        for n in range(1, self.cfg.get('together', 1) + 1):
            for combo in itertools.permutations(singles, n):
                who = [x[0] for x in combo if x != 'connect']
                if len(set(who)) == len(who) and combo not in out:
                    out.append(combo)
        return out

    def scripted(self, timeout):
        """The next event of a periodic history."""
        script = self.cfg['script']
        for __ in script:
            token = script[self.token % len(script)]
            self.token += 1
            here = [c for c in self.connected() if not c.left]
            if token == 'c':
                return ('connect',)
            elif token in 'fl' and here:
                # the first or the last one leaves.
                return ((here[0 if token == 'f' else -1], True),)
            elif token == 'x' and here:
                # the next message to it fails.
                here[-1].breaks = True
            elif token == 't' and timeout is not None:
                return ()
        return ()

    def select(self, rlist, wlist, xlist, timeout=None):
        rlist = list(rlist)
        if wlist:
            return [], list(wlist), []
        self.check_waiting(rlist, timeout)
        self.calls += 1
        ready = [self.listener] if self.queue else []
        for c in self.clients:
            if c.left and c in rlist:
                # was ready but isn't handled yet.
                c.waited += 1
                expect(c.waited <= 4, '%r which left is never handled', c)
                ready.append(c)
        if self.calls > self.cfg['depth']:
            if ready:
                return ready, [], []
            raise StopServer()
        if self.cfg.get('script'):
            event = self.scripted(timeout)
        else:
            options = self.events(rlist)
            if timeout is None and len(options) > 1 and not ready:
                # nothing to wait for but an event.
                options = options[1:]
            event = self.chooser.pick(options, 'event', 1)
        if not event and timeout is None and not ready:
            raise StopServer()
        self.trace.append([e if e == 'connect' else (e[0].index, e[1])
                           for e in event])
        for e in event:
            if e == 'connect':
                sock = FakeSocket(self, len(self.clients) + len(self.queue))
                self.queue.append(sock)
                if self.listener not in ready:
                    ready.append(self.listener)
            else:
                sock, how = e
                sock.left = how
                self.known[sock] = self.inner.n
                expect(sock in rlist, '%r is not watched', sock)
                ready.append(sock)
        if ready:
            self.now += INTERVAL / 4
        else:
            self.now += timeout
        return ready, [], []

    def check_waiting(self, rlist, timeout):
        """Whenever the server waits."""
        for sock in rlist:
            expect(sock is self.listener or not sock.closed,
                   'waits for the closed %r', sock)
        expect(len(set(map(id, rlist))) == len(rlist), 'watched twice')
        serving = self.connected()
        expect_equal(set(x for x in rlist if x is not self.listener),
                     set(serving), 'watched clients')
        expect(self.listener in rlist, 'the listener is not watched')
        running = self.inner.is_running()
        if self.clients or not self.cfg.get('running'):
            expect_equal(running, bool(serving), 'the profiler is running '
                         'with %d clients' % len(serving))
        if running and self.clients:
            expect(timeout is not None and 0 <= timeout <= INTERVAL,
                   'waits %r for the interval', timeout)
        self.states.append((
            timeout is None, running, min(self.inner.n, 3), len(self.queue),
            tuple((bool(c.left), c.failed, c.closed, self.joined[c],
                   self.inner.n) for c in self.clients)))
        # one result per interval.
        expect(self.inner.n - self.last_n <= 1, 'several results at once')
        self.last_n = self.inner.n
        for sock in self.clients:
            if sock.failed:
                expect_equal(sock.closed, 1, 'failed client is closed')
            elif not sock.left:
                expect_equal(sock.closed, 0, 'healthy client is closed')
                if self.cfg.get('script') and self.calls % 8:
                    continue
                check_stream(sock, Null, self.cfg.get('protocol', 2),
                             self.first(sock), self.inner.n, True)

    def first(self, sock):
        n = self.joined[sock] or 1
        return n, n

    def run(self):
        targets = {'select.select': self.select,
                   'time.time': lambda: self.now,
                   'time.clock': lambda: 0.0}
        if self.cfg.get('running'):
            # somebody else started it.
            self.profiler.start()
        with env.patched(dict((k, v) for k, v in targets.items()
                              if k in env.TRAMPOLINES)):
            try:
                self.server.serve_forever()
            except StopServer:
                pass
            else:
                expect(False, 'the server ended')
        self.check_end()

    def check_end(self):
        for sock in self.clients:
            healthy = not sock.failed and not sock.left
            last = self.inner.n if healthy else self.known.get(sock)
            if sock.failed:
                last = None
            if not healthy:
                expect_equal(sock.closed, 1, 'times %r is closed' % sock)
            check_stream(sock, Null, self.cfg.get('protocol', 2),
                         self.first(sock), last, not sock.failed)
