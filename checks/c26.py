# -*- coding: utf-8 -*-
"""C26: waiting for sockets is interruption-safe and keeps the interval."""
from __future__ import absolute_import

import errno
import itertools
import select
import socket

from mc import env
env.install('select.select', 'time.monotonic', *env.CLOCKS)
from mc.core import (
    Chooser, expect, expect_equal, explore, HarnessError, words)

from profiling.remote.select import SelectProfilingServer
from mc.net import Null

INFO = {
    'technique': 'exhaustive enumeration of the outcomes and durations of '
                 'select() and of receiving, on the real server with an owned '
                 'clock; conformance of the stand-in with real sockets',
    'bounds': 'one dispatch: up to 3 (quick) / 4 (thorough) interruptions out '
              'of 12 kinds and durations, then every ready subset of listener '
              'and 2 clients, time-out or error, from 7 time-outs, and up to 300 '
              'interruptions which alternate between two kinds; the serving '
              'loop: all histories of 6 / 7 select outcomes out of 11-14 with '
              'up to 3 clients; real sockets: all ready subsets of 4',
    'assumptions': ['a descriptor which select() refuses (ValueError) is taken '
                    'as an interruption: the sockets are looked up anew',
                    'the clock never steps back',
                    'errors of accept() are not explored'],
}

EPS = 1e-9


class Sock(object):

    def __init__(self, name, got=b''):
        self.name = name
        self.got = got
        self.received = 0
        self.closed = 0
        self.sent = []

    def __repr__(self):
        return self.name

    def fileno(self):
        return 7

    def recv(self, size, *flags):
        self.received += 1
        expect(not self.closed, 'receives from a closed socket')
        if isinstance(self.got, Exception):
            raise self.got
        return self.got[:size]

    def sendall(self, data, *flags):
        expect(not self.closed, 'sends to a closed socket')
        self.sent.append(data)

    def send(self, data, *flags):
        self.sendall(data)
        return len(data)

    def settimeout(self, *args):
        pass

    def setblocking(self, *args):
        pass

    def gettimeout(self):
        return None

    def getpeername(self):
        return ('10.0.0.1', 1)

    def close(self):
        self.closed += 1


class Listener(Sock):

    def __init__(self, world):
        Sock.__init__(self, 'listener')
        self.world = world

    def accept(self):
        return self.world.accept()

    def getsockname(self):
        return ('0.0.0.0', 1)


class Fault(Exception):
    """An error which has to come through."""


class End(BaseException):
    """The end of a history."""


GOTS = {'closed': b'', 'data': b'xyz',
        'reset': socket.error(errno.ECONNRESET, 'injected'),
        'pipe': socket.error(errno.EPIPE, 'injected'),
        'timeout': socket.timeout('injected')}


def interruption(kind):
    if kind == 'EINTR':
        return select.error(errno.EINTR, 'injected')
    elif kind == 'Interrupted':
        return InterruptedError(errno.EINTR, 'injected')
    elif kind == 'ValueError':
        return ValueError('filedescriptor cannot be a negative integer (-1)')
    raise HarnessError(kind)


ERRORS = {
    'EBADF': lambda: select.error(errno.EBADF, 'injected'),
    'ENOMEM': lambda: OSError(errno.ENOMEM, 'injected'),
    'EINVAL': lambda: OSError(errno.EINVAL, 'injected'),
    'EAGAIN': lambda: OSError(errno.EAGAIN, 'injected'),
    'TypeError': lambda: TypeError('injected'),
    'KeyboardInterrupt': lambda: KeyboardInterrupt(),
}


class Clocked(object):
    """Owns the clock and select()."""

    def __init__(self):
        self.now = 1000.0
        self.selects = []

    def clock(self, *args):
        return self.now

    def targets(self):
        t = dict((n, self.clock) for n in
                 ('time.time', 'time.monotonic', 'time.perf_counter'))
        t['select.select'] = self.select
        return dict((k, v) for k, v in t.items() if k in env.TRAMPOLINES)


# -- one dispatch

TIMEOUTS = [None, 1.0, 0.0, 0.25, 2.5, 0.125, 1000]
STEPS = [['EINTR', 0], ['EINTR', .25], ['EINTR', .5], ['EINTR', 1],
         ['EINTR', 1.5], ['EINTR', .0625], ['Interrupted', .25],
         ['Interrupted', 1], ['ValueError', 0], ['ValueError', .25],
         ['ValueError', 1], ['EINTR', .99609375]]
FEW_STEPS = [STEPS[i] for i in (0, 1, 3, 6, 8)]
READY = [list(c) for n in range(1, 4)
         for c in itertools.permutations(['listener', 'a', 'b'], n)]
LASTS = [['timeout', None]] + \
    [['ready', r, .125] for r in READY] + [['ready', ['a'], 0]] + \
    [['error', e, .125] for e in sorted(ERRORS)]


class Dispatch(Clocked):

    def __init__(self, timeout, steps, last, listening, gots):
        Clocked.__init__(self)
        self.timeout = timeout
        self.script = [list(s) for s in steps]
        self.last = last
        self.listener = Listener(self) if listening else None
        self.socks = {'a': Sock('a', GOTS[gots[0]]),
                      'b': Sock('b', GOTS[gots[1]]),
                      'listener': self.listener}
        self.accepted = []
        self.events = []
        self.left = timeout
        self.over = False
        self.polled = False
        self.error = None
        self.server = SelectProfilingServer(self.listener, Null(0), 3.0,
                                            log=lambda x: None)
        self.server.connected = lambda s: self.events.append(('connected', s))
        self.server.disconnected = \
            lambda s: self.events.append(('disconnected', s))
        self.server.clients.update([self.socks['a'], self.socks['b']])

    def accept(self):
        sock = Sock('new')
        self.accepted.append(sock)
        return sock, ('10.0.0.9', 9)

    def select(self, rlist, wlist, xlist, timeout=None):
        if self.over and self.left is not None and self.left <= 0 and \
                timeout == 0 and not self.polled:
            # looks once more without waiting.
            self.polled = True
            return [], [], []
        expect(not self.over, 'waits again after the result or time-out')
        want = set([self.socks['a'], self.socks['b']])
        if self.listener:
            want.add(self.listener)
        rlist = list(rlist)
        expect_equal(len(rlist), len(set(rlist)), 'sockets waited for')
        expect_equal(set(rlist), want, 'the sockets waited for')
        expect_equal((list(wlist), list(xlist)), ([], []),
                     'other sockets waited for')
        if self.left is None:
            expect(timeout is None, 'waits for %r instead of indefinitely',
                   timeout)
        else:
            expect(timeout is not None and
                   abs(timeout - self.left) < EPS, 'waits for %r, %r of the '
                   'time-out are left', timeout, self.left)
        if self.script:
            kind, elapsed = self.script.pop(0)
            self.pass_time(elapsed)
            if self.left is not None and self.left <= 0:
                self.over = True
            raise interruption(kind)
        self.over = True
        if self.last[0] == 'timeout':
            if timeout is None:
                raise End()
            self.pass_time(timeout)
            return [], [], []
        elif self.last[0] == 'error':
            self.pass_time(self.last[2])
            self.error = ERRORS[self.last[1]]()
            raise self.error
        self.pass_time(self.last[2] if self.left is None else
                       min(self.last[2], self.left))
        return [self.socks[n] for n in self.last[1]], [], []

    def pass_time(self, elapsed):
        self.now += elapsed
        if self.left is not None:
            self.left -= elapsed


def dispatch_case(timeout, steps, last, listening, gots):
    d = Dispatch(timeout, steps, last, listening, gots)
    raised = None
    with env.patched(d.targets()):
        try:
            d.server.dispatch_sockets(timeout)
        except End:
            return
        except (Exception, KeyboardInterrupt) as exc:
            if exc is not d.error:
                raise
            raised = exc
    expect(d.over, 'returned before it waited for %r: %r are left',
           timeout, d.left)
    expect(raised is d.error, 'swallows %r', d.error)
    ready = last[1] if last[0] == 'ready' and not d.script and \
        d.error is None else []
    if d.left is not None and d.left <= 0 and (last[0] != 'ready' or d.script):
        ready = []
    if d.script or d.interrupted_out(steps):
        ready = []
    want = []
    for name in ready:
        if name == 'listener':
            expect_equal(len(d.accepted), 1, 'connections accepted')
            want.append(('connected', d.accepted[0]))
        else:
            want.append(('disconnected', d.socks[name]))
            expect_equal(d.socks[name].received, 1, 'times received')
    key = repr
    expect_equal(sorted(d.events, key=key), sorted(want, key=key),
                 'sockets handled of %r' % (ready,))


def interrupted_out(self, steps):
    """Whether the interruptions took all of the time-out."""
    return self.timeout is not None and len(steps) > 0 and \
        sum(s[1] for s in steps) >= self.timeout


Dispatch.interrupted_out = interrupted_out


def dispatch_cases(ctx):
    gots = list(itertools.product(sorted(GOTS), repeat=2))
    k = 0
    for timeout in TIMEOUTS:
        for depth in range(4 if ctx.quick else 5):
            steps = STEPS if depth < 3 else FEW_STEPS
            for script in itertools.product(steps, repeat=depth):
                lasts = LASTS if depth < 2 else LASTS[:8] + LASTS[-7:-4]
                for last in lasts:
                    for listening in (True, False):
                        if last[0] == 'ready' and 'listener' in last[1] and \
                                not listening:
                            continue
                        if last[0] != 'ready' and listening and depth:
                            continue
                        for g in (gots if depth == 0 and last[0] == 'ready'
                                  else [gots[k % len(gots)]]):
                            k += 1
                            yield ['dispatch', timeout, list(script), last,
                                   listening, list(g)]
    # many interruptions.
    for n in (60, 300):
        for word in words(range(len(STEPS)), 2):
            for timeout in (None, 1024.0, 32.0):
                # all but the last one fit in.
                script = [[STEPS[x][0], STEPS[x][1] * (timeout or 32) / n]
                          for __, x in zip(range(n),
                                           itertools.cycle(word))]
                script = [[k, int(t * 1024) / 1024.0 / 2]
                          for k, t in script]
                for last in LASTS[:2] + LASTS[5:7]:
                    yield ['dispatch', timeout, script, last, True,
                           ['closed', 'data']]


# -- the serving loop

INTERVAL = 2.0


class Serve(Clocked):
    """The whole loop of a server."""

    def __init__(self, chooser, depth):
        Clocked.__init__(self)
        self.chooser = chooser
        self.depth = depth
        self.listener = Listener(self)
        self.server = SelectProfilingServer(self.listener, Null(0), INTERVAL,
                                            log=lambda x: None)
        self.pending = []
        self.clients = []
        self.left = 'fresh'
        self.error = None
        self.expected = []
        self.accepted = 0
        self.trace = []

    def accept(self):
        expect(self.pending, 'accepts but nobody connects')
        sock = self.pending.pop()
        self.clients.append(sock)
        return sock, ('10.0.0.9', 9)

    def settle(self):
        """Everything ready was handled by now."""
        for name, sock in self.expected:
            if name == 'left':
                expect_equal((sock.received, sock.closed), (1, 1),
                             'times received from and closed %r' % sock)
                self.clients.remove(sock)
        expect(not self.pending, 'a connection is not accepted')
        self.expected = []
        for sock in self.clients:
            expect_equal((sock.received, sock.closed), (0, 0),
                         'times received from and closed %r' % sock)

    def select(self, rlist, wlist, xlist, timeout=None):
        self.settle()
        expect_equal(set(rlist), set(self.clients + [self.listener]),
                     'the sockets waited for')
        if self.left == 'fresh' and timeout == 0 and self.trace and \
                self.trace[-1][0] not in ('timeout', 'ready'):
            # looks once more without waiting.
            return [], [], []
        if self.left == 'fresh':
            self.left = INTERVAL if self.clients else None
        if self.left is None:
            expect(timeout is None, 'waits for %r instead of indefinitely '
                   'without a client', timeout)
        else:
            expect(timeout is not None and abs(timeout - self.left) < EPS,
                   'waits for %r, %r of the interval are left', timeout,
                   self.left)
        if len(self.trace) >= self.depth:
            raise End()
        options = [('EINTR', .5), ('EINTR', 2.0), ('ValueError', 0),
                   ('error', 'EBADF'), ('Interrupted', .75)]
        if self.left is not None:
            options = [('timeout',)] + options
        names = ['accept'] if len(self.clients) < 3 else []
        names += ['c%d' % i for i in range(len(self.clients))]
        for n in range(1, min(3, len(names)) + 1):
            options += [('ready',) + c
                        for c in itertools.combinations(names, n)]
        # an indefinite wait ends by a connection at first.
        if self.left is None:
            options.reverse()
        event = self.chooser.pick(options, 'select')
        self.trace.append(event)
        if event[0] == 'timeout':
            self.now += timeout
            self.left = 'fresh'
            return [], [], []
        elif event[0] == 'error':
            self.error = ERRORS[event[1]]()
            raise self.error
        elif event[0] == 'ready':
            self.now += .25 if self.left is None else min(.25, self.left)
            self.left = 'fresh'
            ready = []
            for name in event[1:]:
                if name == 'accept':
                    self.pending.append(Sock('client'))
                    ready.append(self.listener)
                else:
                    sock = self.clients[int(name[1:])]
                    self.expected.append(('left', sock))
                    ready.append(sock)
            if len(self.trace) % 2:
                ready.reverse()
            return ready, [], []
        self.now += event[1]
        if self.left is not None:
            self.left -= event[1]
            if self.left <= 0:
                self.left = 'fresh'
        raise interruption(event[0])


def serve_case(ctx, chooser, depth):
    s = Serve(chooser, depth)
    with env.patched(s.targets()):
        try:
            s.server.serve_forever()
        except End:
            pass
        except Exception as exc:
            if exc is not s.error:
                raise
        else:
            expect(False, 'the server ended by itself')
    ctx.step(len(s.trace))
    for i in range(len(s.trace) + 1):
        ctx.state(('serve', tuple(s.trace[:i])))


# -- real sockets

def real_case(ready, listening, interval):
    """The sockets of the operating system are handled likewise."""
    listener = None
    opened = []
    try:
        if listening:
            listener = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
            listener.bind(('127.0.0.1', 0))
            listener.listen(5)
            opened.append(listener)
        server = SelectProfilingServer(listener, Null(0), interval,
                                       log=lambda x: None)
        events = []
        server.connected = lambda s: (opened.append(s),
                                      events.append('connected'))
        server.disconnected = lambda s: events.append(names[s])
        names, peers = {}, {}
        for name in 'abc':
            x, y = socket.socketpair()
            opened += [x, y]
            names[x] = name
            peers[name] = y
            server.clients.add(x)
        for name in ready:
            if name == 'listener':
                c = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
                opened.append(c)
                c.connect(listener.getsockname())
            elif name == 'b':
                peers[name].sendall(b'!')
            else:
                peers[name].shutdown(socket.SHUT_WR)
        import time
        t = time.monotonic()
        server.dispatch_sockets(interval)
        t = time.monotonic() - t
        want = ['connected' if n == 'listener' else n for n in ready]
        expect_equal(sorted(events), sorted(want), 'sockets handled')
        if not ready:
            expect(t >= interval * .9, 'waited for %r instead of %r', t,
                   interval)
    finally:
        for s in opened:
            s.close()


def real_cases():
    for n in range(5):
        for ready in itertools.combinations(['a', 'b', 'c', 'listener'], n):
            for listening in (True, False):
                if not listening and 'listener' in ready:
                    continue
                for interval in (.05, .2):
                    yield ['real', list(ready), listening, interval]


def run(ctx):
    depth = 6 if ctx.quick else 7

    def work(ctx, shard, n):
        for case in itertools.islice(dispatch_cases(ctx), shard, None, n):
            ctx.step(len(case[2]) + 1)
            ctx.state(repr(case))
            ctx.case(case, dispatch_case, *case[1:])
            ctx.outcome('dispatch')
        for case in list(real_cases())[shard::n]:
            ctx.step()
            ctx.case(case, real_case, *case[1:])
            ctx.outcome('real')
        from mc.core import explore_dealt

        def one(chooser):
            if chooser.duplicate:
                # just finds the choice points.
                try:
                    serve_case(ctx.scratch, chooser, depth)
                except Exception:
                    pass
                return
            ctx.case(['serve', list(chooser.prefix), depth],
                     serve_case, ctx, chooser, depth)
        for chooser in explore_dealt(one, shard, n):
            ctx.outcome('serve')
    from mc.core import Ctx
    ctx.shards(lambda ctx, shard, n: (
        setattr(ctx, 'scratch', Ctx(ctx.prop, ctx.tier, ctx.seed)),
        work(ctx, shard, n)))


def replay(ctx, case):
    if case[0] == 'dispatch':
        ctx.case(case, dispatch_case, *case[1:])
    elif case[0] == 'real':
        ctx.case(case, real_case, *case[1:])
    else:
        ctx.case(case, serve_case, ctx, Chooser(case[1]), case[2])
