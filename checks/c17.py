# -*- coding: utf-8 -*-
"""C17: clients reassemble exactly the messages that were sent."""
from __future__ import absolute_import

import errno
import itertools
import os
import pickle
import socket
import struct
import threading
import time

from mc.core import (
    Chooser, expect, expect_equal, explore_dealt, HarnessError)

from profiling.remote import (
    pack_msg, PROFILER, recv_msg, RESULT, WELCOME)
from profiling.remote.client import FailoverProfilingClient, ProfilingClient
from profiling.sampling import SamplingProfiler
from profiling.stats import FrozenStatistics
from profiling.tracing import TracingProfiler

INFO = {
    'technique': 'fault-injecting model checking of the real receiver: all '
                 'ways to split, delay, interrupt and cut the byte stream on '
                 'a model socket; conformance runs over real sockets',
    'bounds': 'all 2^(n-1) segmentations of one and two messages of 9 bytes '
              '(and of 3 in thorough), would-block at any of the cuts of one; '
              'sequences of up to 4 messages of all methods and pickle '
              'protocols with up to 3 (thorough 4) deviations per stream '
              '(single bytes, all but one, would-block, interruption, end, 6 '
              'errors); end of stream at every byte; message sizes around '
              '2^7, 2^8, 2^15, 2^16, 2^24 and above the socket buffer, '
              'streams of 300 messages, a message in 70000 segments; every cut '
              'point over real stream sockets, blocking or not',
    'assumptions': ['the server is trusted: a message of the declared size '
                    'is a valid pickle'],
}

ERRORS = [errno.ECONNRESET, errno.ECONNREFUSED, errno.ETIMEDOUT, errno.EPIPE,
          errno.EBADF, errno.EHOSTUNREACH]


class Readable(object):
    """A file descriptor which is always ready."""

    fds = None

    @classmethod
    def fileno(cls):
        if cls.fds is None:
            cls.fds = os.pipe()
            os.write(cls.fds[1], b'.')
        return cls.fds[0]


class FakeStream(object):
    """The client's end of a connection."""

    def __init__(self, data, choose):
        self.data = data
        self.at = 0
        self.choose = choose
        self.timeout = 0.0
        self.in_a_row = 0
        self.calls = 0

    def fileno(self):
        return Readable.fileno()

    def setblocking(self, flag):
        self.timeout = None if flag else 0.0

    def settimeout(self, timeout):
        self.timeout = timeout

    def gettimeout(self):
        return self.timeout

    def recv(self, size, flags=0):
        self.calls += 1
        expect(size > 0, 'receives %r bytes', size)
        left = self.data[self.at:self.at + size]
        if not left:
            return b''
        n = self.choose(self, len(left))
        if isinstance(n, tuple):
            kind, code = n
            if kind == 'again':
                self.in_a_row += 1
                if self.in_a_row > 50:
                    raise HarnessError('too many retries')
                raise BlockingIOError(code, 'injected')
            if kind == 'interrupted':
                raise InterruptedError(errno.EINTR, 'injected')
            raise socket.error(code, 'injected')
        self.in_a_row = 0
        data = left[:n]
        if flags & socket.MSG_PEEK:
            return data
        self.at += len(data)
        return data

    def recv_into(self, buffer, nbytes=0, flags=0):
        data = self.recv(nbytes or len(buffer), flags)
        buffer[:len(data)] = data
        return len(data)


class Viewer(object):

    def __init__(self):
        self.log = []

    def activate(self):
        self.log.append(('activate',))

    def inactivate(self):
        self.log.append(('inactivate',))

    def set_profiler_class(self, profiler_class):
        self.log.append(('class', profiler_class))

    def set_result(self, stats, cpu_time, wall_time, title=None, at=None):
        self.log.append(('result', describe(stats), cpu_time, wall_time,
                         title))


class Loop(object):

    def __init__(self):
        self.watched = {}
        self.removed = []
        self.alarms = []

    def watch_file(self, fd, callback):
        self.watched[fd] = callback
        return fd

    def remove_watch_file(self, handle):
        self.removed.append(handle)
        return self.watched.pop(handle, None) is not None

    def alarm(self, seconds, callback):
        self.alarms.append((seconds, callback))
        return len(self.alarms)


def describe(stats):
    return (stats.name, stats.own_hits, stats.deep_time,
            [describe(s) for s in stats])


def stats(n):
    root = FrozenStatistics('root', own_hits=n, deep_time=n * 1.5)
    child = FrozenStatistics(u'child\u2603', 'f.py', n, 'm', own_hits=3)
    return root._replace(children=[child]) if hasattr(root, '_replace') else \
        FrozenStatistics('root', own_hits=n, deep_time=n * 1.5,
                         children=[child])


MESSAGES = {
    'w': (WELCOME, (2, '1.0')),
    't': (PROFILER, TracingProfiler),
    's': (PROFILER, SamplingProfiler),
    'r': (RESULT, (stats(1), 1.0, 2.0)),
    'q': (RESULT, (stats(300), 0.0, 0.25)),
    'u': (0x7f, 'unknown'),
    'n': (0xff, None),
}


def effect(key):
    method, msg = MESSAGES[key]
    if method == WELCOME:
        return [('activate',)]
    if method == PROFILER:
        return [('class', msg)]
    if method == RESULT:
        return [('result', describe(msg[0]), msg[1], msg[2], 'title')]
    return []


def pack(keys, protocol=2):
    return [pack_msg(*MESSAGES[k], pickle_protocol=protocol) for k in keys]


def check_packed(data, method, protocol):
    """The format of a packed message."""
    expect_equal(data[:1], struct.pack('!B', method), 'method')
    expect_equal(data[1:5], struct.pack('!I', len(data) - 5), 'size')
    if protocol >= 2:
        expect_equal(data[5:7], b'\x80' + bytes(bytearray([protocol])),
                     'pickle protocol')


def same(a, b):
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and \
            all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, FrozenStatistics):
        return isinstance(b, FrozenStatistics) and describe(a) == describe(b)
    return a == b and type(a) is type(b)


def receive_all(stream, keys, datas, fault):
    """Receives by `recv_msg`.

    :param fault: returns the error that was injected or None.
    """
    end = 0
    for key, data in zip(keys, datas):
        begin = end
        end += len(data)
        try:
            method, msg = recv_msg(stream)
        except socket.error as exc:
            code = fault()
            expect(code is not None or len(stream.data) < end,
                   'error without a failure: %r', exc)
            if code is not None:
                expect_equal(exc.errno, code, 'errno of the error')
            else:
                expect_equal(exc.errno, errno.ECONNRESET, 'errno of the end')
            return False
        expect(fault() is None, 'a failure is swallowed')
        expect(same((method, msg), MESSAGES[key]), 'received %r for %r',
               (method, msg), MESSAGES[key])
        expect_equal(stream.at, end, 'consumed bytes')
    return True


class Faulty(object):
    """Chooses what every receiving gives."""

    def __init__(self, chooser, errors=ERRORS, retries=4):
        self.chooser = chooser
        self.errors = errors
        self.retries = retries
        self.code = None

    def __call__(self, stream, n):
        if self.code is not None:
            raise HarnessError('received after an error')
        sizes = sorted(set([1, n // 2, n - 1]) - set([0, n]))
        options = [n] + sizes
        if self.retries:
            options += [('again', errno.EAGAIN), ('interrupted', None)]
        options += [('fails', e) for e in self.errors]
        out = self.chooser.pick(options, 'recv', 1)
        if isinstance(out, tuple):
            if out[0] == 'fails':
                self.code = out[1]
            else:
                self.retries -= 1
        return out


def run_faulty(ctx, cfg, shard, n):
    keys, protocol, bound, cut = cfg
    datas = pack(keys, protocol)
    data = b''.join(datas)
    if cut is not None:
        data = data[:cut]

    def once(chooser):
        faulty = Faulty(chooser)
        stream = FakeStream(data, faulty)
        case = {'kind': 'faulty', 'cfg': cfg, 'choices': chooser.choices}
        if chooser.duplicate:
            try:
                receive_all(stream, keys, datas, lambda: faulty.code)
            except BaseException:
                pass
            return
        ctx.case(case, receive_all, stream, keys, datas, lambda: faulty.code)
        ctx.step(stream.calls)
        ctx.state((cfg, stream.at, faulty.code))
        ctx.outcome((keys, faulty.code, stream.at == len(data)))
    for __ in explore_dealt(once, shard, n, bound):
        pass


# -- all segmentations --------------------------------------------------------


class Segments(object):

    def __init__(self, cuts, blocks):
        self.cuts = cuts  # sorted positions.
        self.blocks = set(blocks)  # cuts where it would block first.

    def __call__(self, stream, n):
        if stream.at in self.blocks:
            self.blocks.discard(stream.at)
            return ('again', errno.EAGAIN)
        for c in self.cuts:
            if c > stream.at:
                return min(n, c - stream.at)
        return n


def run_segments(ctx, keys, shard, n, blocks=False):
    datas = pack(keys)
    data = b''.join(datas)
    positions = range(1, len(data))
    x = 0
    for size in range(len(data)):
        for cuts in itertools.combinations(positions, size):
            x += 1
            if x % n != shard:
                continue
            waits = [()]
            if blocks:
                waits = itertools.chain.from_iterable(
                    itertools.combinations((0,) + cuts, k)
                    for k in range(len(cuts) + 2))
            for wait in waits:
                stream = FakeStream(data, Segments(cuts, wait))
                ctx.case({'kind': 'segments', 'keys': keys, 'cuts': cuts,
                          'waits': wait}, whole, stream, keys, datas)
                ctx.step(stream.calls)
    ctx.state(('segments', keys, x))


def whole(stream, keys, datas):
    expect(receive_all(stream, keys, datas, lambda: None), 'not received')


# -- the clients --------------------------------------------------------------


def client_case(keys, protocol, cut, failover, split, error=None):
    """A client handles a stream as its event loop would."""
    datas = pack(keys, protocol)
    for data, key in zip(datas, keys):
        check_packed(data, MESSAGES[key][0], protocol)
    data = b''.join(datas)
    if cut is not None:
        data = data[:cut]

    def choose(stream, n):
        return n if split is None else min(n, split)
    stream = FakeStream(data, choose)
    if error:
        # instead of the end of the stream.
        recv = stream.recv

        def failing(size, flags=0):
            got = recv(size, flags)
            if not got:
                raise error
            return got
        stream.recv = failing
    viewer, loop = Viewer(), Loop()
    if failover:
        client = FailoverProfilingClient(viewer, loop, ('127.0.0.1', 1),
                                         title='title')
        client.sock = stream
        stream.connect_ex = lambda addr: 0
        stream.close = lambda: None
        client.connect()
    else:
        client = ProfilingClient(viewer, loop, stream, 'title')
        client.start()
    fd = stream.fileno()
    expect_equal(list(loop.watched), [fd], 'watched')
    want, at = [], 0
    for key, d in zip(keys, datas):
        at += len(d)
        if at > len(data):
            break
        loop.watched[fd]()
        want.extend(effect(key))
        expect_equal(viewer.log, want, 'effects on the viewer')
        expect_equal(stream.at, at, 'consumed')
        expect_equal(list(loop.watched), [fd], 'watched')
    loop.watched[fd]()
    want.append(('inactivate',))
    expect_equal(viewer.log, want, 'effects on the viewer after the loss')
    expect(not loop.watched, 'the lost socket is still watched')
    if failover:
        client.sock.close()
        expect_equal(len(loop.alarms), 1, 'reconnections')


def client_cases(quick):
    out = []
    for keys in ['wtr', 'wsrq', 'wtruqn', 'u', '', 'rr']:
        for protocol in (0, 1, 2, pickle.HIGHEST_PROTOCOL):
            size = sum(map(len, pack(keys, protocol)))
            cuts = [None] + [size - 1, size // 2]
            if protocol == 2:
                cuts = [None] + list(range(size))
            for cut in cuts:
                if cut is not None and cut < 0:
                    continue
                for failover in (0, 1):
                    for split in (None, 1, 7):
                        if split and cut is not None and quick and cut % 9:
                            continue
                        out.append((keys, protocol, cut, failover, split))
    # long ones.
    for keys in ('wt' + 'r' * 300, 'wt' + 'qs' * 80, 'w' + 'un' * 80,
                 'wtr' * 60):
        for cut in (None, -1):
            for failover in (0, 1):
                for split in (None, 7):
                    out.append((keys, 2, cut, failover, split))
    return out


def error_cases():
    for keys in ('wt', 'w'):
        for cut in range(sum(map(len, pack(keys))) + 1):
            for x, error in enumerate(CLIENT_ERRORS):
                for failover in (0, 1):
                    yield keys, 2, cut, failover, None, x


CLIENT_ERRORS = [socket.error(e, 'injected') for e in ERRORS] + \
    [socket.timeout('timed out')]


# -- sizes --------------------------------------------------------------------


def size_case(size, protocol, chunk):
    """A message with a dump of this many bytes."""
    method = 0x13
    filler = max(0, size - 60)
    data = pack_msg(method, b'x' * filler, pickle_protocol=protocol)
    while len(data) - 5 < size:
        filler += 1
        data = pack_msg(method, b'x' * filler, pickle_protocol=protocol)
    check_packed(data, method, protocol)
    stream = FakeStream(data + b'NEXT', lambda s, n: min(n, chunk))
    got = recv_msg(stream)
    expect(got == (method, b'x' * filler), 'received another message')
    expect_equal(stream.at, len(data), 'consumed')


SIZES = sorted(set(2 ** k + d for k in (4, 7, 8, 15, 16, 17, 20, 24)
                   for d in (-2, -1, 0, 1, 2)))


def size_cases():
    for size in SIZES:
        for protocol in (2, pickle.HIGHEST_PROTOCOL):
            for chunk in (1 << 30, 65536, 4096, 1460):
                if size // chunk < 200:
                    yield size, protocol, chunk
    for size in (255, 1025, 5000, 70000):
        for chunk in (1, 3, 17):
            yield size, 2, chunk


# -- real sockets -------------------------------------------------------------


def real_case(keys, cut, nonblocking, family, ends):
    datas = pack(keys)
    data = b''.join(datas)
    if family == 'unix':
        a, b = socket.socketpair()
    else:
        listener = socket.socket()
        listener.bind(('127.0.0.1', 0))
        listener.listen(1)
        a = socket.create_connection(listener.getsockname())
        b, __ = listener.accept()
        listener.close()
        a.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    b.setblocking(not nonblocking)

    def send():
        a.sendall(data[:cut])
        time.sleep(0.002)
        if ends:
            a.close()
        else:
            a.sendall(data[cut:])
    a.sendall(b'')
    thread = threading.Thread(target=send)
    thread.start()
    at = 0
    try:
        for key, d in zip(keys, datas):
            at += len(d)
            try:
                got = recv_msg(b)
            except socket.error as exc:
                expect(ends and at > cut, 'error without a failure: %r', exc)
                expect_equal(exc.errno, errno.ECONNRESET, 'errno of the end')
                break
            expect(not ends or at <= cut, 'a truncated message')
            expect(same(got, MESSAGES[key]), 'received %r', got)
        else:
            expect(not ends or cut >= at, 'the end is not noticed')
            thread.join()
            a.close()
            b.setblocking(1)
            expect_equal(b.recv(9), b'', 'left in the stream')
    finally:
        thread.join()
        a.close()
        b.close()


def real_cases(quick):
    for keys in ('wtr', 'rq'):
        total = sum(map(len, pack(keys)))
        for cut in range(0, total + 1, 3 if quick else 1):
            for nonblocking in (0, 1):
                for ends in (0, 1):
                    yield (keys, cut, nonblocking,
                           'tcp' if cut % 2 else 'unix', ends)


def big_case(size, nonblocking):
    """Larger than all the buffers."""
    a, b = socket.socketpair()
    b.setblocking(not nonblocking)
    data = pack_msg(1, b'y' * size)

    def send():
        try:
            a.sendall(data)
        except socket.error:
            pass
    thread = threading.Thread(target=send)
    thread.start()
    try:
        got = recv_msg(b)
    finally:
        # a sender which is still alive gets an error.
        b.close()
        thread.join()
        a.close()
    expect(got == (1, b'y' * size), 'received another message')


FAULTY = [('wtr', 2), ('rqu', 0), ('wsrq', 2), ('nnn', 2)]


def faulty_configs(quick):
    for keys, protocol in FAULTY:
        yield (keys, protocol, 3 if quick else 4, None)
    datas = pack('nu')
    for cut in range(sum(map(len, datas))):
        yield ('nu', 2, 2 if quick else 3, cut)


def dispatch(ctx, case):
    kind, args = case['kind'], case.get('args')
    if kind == 'client':
        args = list(args)
        if len(args) > 5:
            args[5] = CLIENT_ERRORS[args[5]]
        ctx.case(case, client_case, *args)
    elif kind == 'size':
        ctx.case(case, size_case, *args)
    elif kind == 'real':
        ctx.case(case, real_case, *args)
    elif kind == 'big':
        ctx.case(case, big_case, *args)
    ctx.step()


def run(ctx):
    ctx.case_timeout = 15.0

    def shard(ctx, shard, n):
        cases = [{'kind': 'client', 'args': a} for a in
                 client_cases(ctx.quick)]
        cases += [{'kind': 'client', 'args': a} for a in error_cases()]
        cases += [{'kind': 'size', 'args': a} for a in size_cases()]
        cases += [{'kind': 'real', 'args': a} for a in real_cases(ctx.quick)]
        cases += [{'kind': 'big', 'args': (s, b)} for s in (10 ** 5, 3000000)
                  for b in (0, 1)]
        for x, case in enumerate(cases):
            if x % n == shard:
                dispatch(ctx, case)
                ctx.state(sorted(case.items()))
        for cfg in faulty_configs(ctx.quick):
            run_faulty(ctx, cfg, shard, n)
        run_segments(ctx, 'n', shard, n, blocks=True)
        run_segments(ctx, 'nn', shard, n)
        if not ctx.quick:
            run_segments(ctx, 'u', shard, n)
    ctx.shards(shard)


def replay(ctx, case):
    if case['kind'] == 'faulty':
        cfg = tuple(case['cfg'])
        keys, protocol, __, cut = cfg
        datas = pack(keys, protocol)
        data = b''.join(datas)[:cut]
        faulty = Faulty(Chooser(case['choices']))
        ctx.case(case, receive_all, FakeStream(data, faulty), keys, datas,
                 lambda: faulty.code)
    elif case['kind'] == 'segments':
        datas = pack(case['keys'])
        ctx.case(case, whole, FakeStream(
            b''.join(datas), Segments(case['cuts'], case['waits'])),
            case['keys'], datas)
    else:
        dispatch(ctx, case)
