# -*- coding: utf-8 -*-
"""A model network for the profiling servers and clients: sockets whose
outcomes the explorer chooses, and the oracle on what every client received.
"""
from __future__ import absolute_import

import errno
import pickle
import socket
import struct

from mc.core import expect, expect_equal

from profiling.__about__ import __version__
from profiling.profiler import Profiler, ProfilerWrapper
from profiling.stats import FrozenStatistics

WELCOME, PROFILER, RESULT = 0x10, 0x11, 0x12


class StopServer(BaseException):
    """Ends a server which would go on forever."""


class Null(Profiler):
    """A profiler whose results are numbered."""

    def __init__(self, payload=0):
        super(Null, self).__init__()
        self.n = 0
        self.payload = 'x' * payload

    def run(self):
        yield

    def result(self):
        expect(not self.is_running(), 'a result of a running profiler')
        self.n += 1
        return (FrozenStatistics(name='r%d%s' % (self.n, self.payload)),
                float(self.n), 2.0 * self.n)


class Wrapper(ProfilerWrapper):

    def run(self):
        self.profiler.start()
        yield
        self.profiler.stop()


def parse(data):
    """[(method, message)], rest"""
    out, at = [], 0
    while len(data) - at >= 5:
        method, size = struct.unpack('!BI', data[at:at + 5])
        if len(data) - at - 5 < size:
            break
        out.append((method, data[at + 5:at + 5 + size]))
        at += 5 + size
    return out, data[at:]


class FakeSocket(object):
    """The server's end of a connection."""

    def __init__(self, env, index):
        self.env = env
        self.index = index
        self.received = b''  # what arrives at the client.
        self.timeout = None
        self.closed = 0
        self.left = False  # the client is gone.
        self.failed = False  # a send failed.
        self.waited = 0
        self.breaks = False  # the next sending fails.

    def __repr__(self):
        return '<client %d>' % self.index

    def _alive(self):
        if self.closed:
            raise socket.error(errno.EBADF, 'Bad file descriptor')

    def fileno(self):
        return -1 if self.closed else 100 + self.index

    def settimeout(self, timeout):
        self._alive()
        self.timeout = timeout

    def gettimeout(self):
        return self.timeout

    def setblocking(self, flag):
        self._alive()
        self.timeout = None if flag else 0.0

    def setsockopt(self, *args):
        self._alive()

    def getpeername(self):
        self._alive()
        if self.left:
            raise socket.error(errno.ENOTCONN, 'Not connected')
        return self.env.address(self)

    def getsockname(self):
        self._alive()
        return self.env.address(self)

    def shutdown(self, how):
        self._alive()
        if self.failed or self.left not in (False, True):
            raise socket.error(errno.ENOTCONN, 'Not connected')

    def close(self):
        self.closed += 1
        self.env.on_close(self)

    # -- data

    def recv(self, size, flags=0):
        self._alive()
        return self.env.recv(self, size)

    def sendall(self, data, flags=0):
        self._alive()
        self.env.send(self, bytes(data), flags, True)

    def send(self, data, flags=0):
        self._alive()
        return self.env.send(self, bytes(data), flags, False)

    def put(self, data):
        expect(not self.failed, 'more was sent after an incomplete message '
               'to %r', self)
        self.received += data


def check_stream(sock, profiler_class, protocol, first, last, complete):
    """Checks what a client received.

    :param first: (lowest, highest) number of the first result.
    :param last: the lowest number of the last result, if it's known.
    :param complete: whether the last message has to be complete.
    """
    messages, rest = parse(sock.received)
    if complete:
        expect_equal(rest, b'', 'incomplete message at %r' % sock)
        expect(len(messages) >= 2, '%r is not greeted', sock)
    for x, (method, data) in enumerate(messages):
        if x and protocol >= 2:
            expect_equal(data[:2], bytes(bytearray([0x80, protocol])),
                         'pickle protocol of message %d' % x)
        msg = pickle.loads(data)
        if x == 0:
            expect_equal((method, msg), (WELCOME, (protocol, __version__)),
                         'first message to %r' % sock)
            if not data.startswith(b'\x80'):
                continue
            expect(False, 'the welcome is pickled with a new protocol')
        elif x == 1:
            expect_equal((method, msg), (PROFILER, profiler_class),
                         'second message to %r' % sock)
        else:
            expect_equal(method, RESULT, 'message %d to %r' % (x, sock))
            stats, cpu, wall = msg
            n = int(cpu)
            expect_equal(stats.name.rstrip('x'), 'r%d' % n, 'statistics')
            expect_equal(wall, 2.0 * n, 'wall time')
            if x == 2:
                expect(first[0] <= n <= first[1],
                       'first result at %r is %d, not %d..%d', sock, n,
                       first[0], first[1])
            else:
                expect_equal(n, previous + 1, 'result %d to %r' % (x, sock))
            previous = n
    results = len(messages) - 2
    if last is not None:
        got = previous if results > 0 else None
        if last >= first[1]:
            expect(got is not None and got >= last,
                   '%r got results up to %r, not %r', sock, got, last)
    return results
