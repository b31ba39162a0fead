# -*- coding: utf-8 -*-
"""C16: a failing client never harms the server or the other clients."""
from __future__ import absolute_import

import errno
import pickle
import socket
import threading
import time

from mc import selectserver  # first: installs the trampolines
from mc import servers
from mc.core import expect, expect_equal
from mc.net import check_stream, Null, parse, RESULT

INFO = {
    'technique': 'fault-injecting explicit-state model checking of the real '
                 'select, gevent and asyncio servers: every way of failing at '
                 'every point of every send and receive of all histories of '
                 'connections and disconnections, on a model network under a '
                 'virtual clock; conformance runs with real sockets',
    'bounds': 'select: up to 3 clients, 5 waits with 1 failing send and 4 '
              'waits with 2, of 6 errnos or a stall after 0, 1, 5, half or '
              'all but 1 of the bytes; clients leaving with 7 kinds of '
              'failing receives; greeting and broadcasts.  gevent: 2 clients '
              'and 6 events, 3 and 5 (thorough 1 to 2 more): sends that fail, '
              'block, or expire.  asyncio: 2 clients and 5 events, 3 and 7',
    'assumptions': ['the listening socket itself does not fail'],
}

LEAVES = [True, errno.ECONNRESET, errno.ETIMEDOUT, errno.EPIPE, errno.EBADF,
          errno.EHOSTUNREACH, 'timeout']


def select_configs(quick):
    more = 0 if quick else 1
    return [dict(clients=3, depth=4 + more, faults=1),
            dict(clients=2, depth=4 + more, faults=1, cuts=1),
            dict(clients=2, depth=3 + more, faults=2),
            dict(clients=3, depth=2 + more, faults=1, together=2),
            dict(clients=2, depth=5 + more, leaves=LEAVES),
            dict(clients=3, depth=4, leaves=LEAVES[:3], together=2),
            dict(clients=2, depth=5 + more, silent=False,
                 leaves=LEAVES[:2]),
            dict(clients=2, depth=3, faults=1, family=1),
            dict(clients=2, depth=3, faults=1, payload=300000)]


def coop_configs(quick):
    more = 0 if quick else 1
    gevent_errors = (errno.EPIPE, errno.EBADF)
    return [
        (dict(server='gevent', clients=2, rush=1, blocks=1, expire=1,
              errors=gevent_errors), 5 + more),
        (dict(server='gevent', clients=2, blocks=1, expire=1,
              rooms=(99, 0, 1, 2), errors=gevent_errors), 5 + more),
        (dict(server='gevent', clients=3, blocks=1, expire=1), 7 + more),
        (dict(server='gevent', clients=3, errors=gevent_errors), 6 + more),
        (dict(server='gevent', clients=2, leaves=LEAVES, rush=1), 4 + more),
        (dict(server='asyncio', clients=2, rush=1,
              leaves=[True] + [e for e in LEAVES[1:] if e != 'timeout']),
         5 + more),
        (dict(server='asyncio', clients=3, leaves=LEAVES[:2]), 7 + more),
    ]


# -- real sockets -------------------------------------------------------------


class Feed(object):
    """A listener whose connections are the ends of socket pairs."""

    def __init__(self):
        self.listener = socket.socket()
        self.listener.bind(('127.0.0.1', 0))
        self.listener.listen(8)
        self.addr = self.listener.getsockname()

    def connect(self, rcvbuf=None):
        s = socket.socket()
        if rcvbuf:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        s.connect(self.addr)
        return s


REAL = ['normal', 'never reads', 'reads slowly', 'resets', 'half closes']


def real_case(kind, payload):
    """A misbehaving client next to a normal one, over TCP."""
    import struct
    from profiling.remote.select import SelectProfilingServer
    feed = Feed()
    done = []
    interval = 0.1

    class Server(SelectProfilingServer):

        def dispatch_sockets(self, timeout=None):
            if done:
                raise SystemExit
            return super(Server, self).dispatch_sockets(
                0.05 if timeout is None else timeout)
    profiler = Null(payload)
    server = Server(feed.listener, profiler, interval, log=lambda m: None)
    thread = threading.Thread(target=serve, args=(server,))
    thread.daemon = True
    thread.start()
    bad = feed.connect(4096)
    if kind == 'resets':
        bad.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER,
                       struct.pack('ii', 1, 0))
        bad.close()
    elif kind == 'half closes':
        bad.shutdown(socket.SHUT_WR)
    good = feed.connect()
    good.settimeout(20)
    data = b''
    try:
        deadline = time.time() + 30
        while True:
            data += good.recv(1 << 20)
            messages, rest = parse(data)
            if len(messages) >= 5:
                break
            if kind in ('reads slowly', 'normal'):
                bad.setblocking(0)
                try:
                    bad.recv(1 << 14 if kind == 'reads slowly' else 1 << 20)
                except socket.error:
                    pass
            expect(time.time() < deadline, 'the normal client starves')
    except socket.timeout:
        expect(False, 'the normal client starves')
    finally:
        done.append(1)
        good.close()
        bad.close()
        thread.join(20)
        feed.listener.close()
    expect(not thread.is_alive(), 'the server hangs')
    ns = [int(pickle.loads(d)[1]) for m, d in messages if m == RESULT]
    expect_equal(ns, list(range(ns[0], ns[0] + len(ns))), 'results')


def serve(server):
    try:
        server.serve_forever()
    except SystemExit:
        pass


def real_cases(quick):
    for kind in REAL:
        for payload in (100, 3000000):
            yield {'server': 'real', 'kind': kind, 'payload': payload}


def run(ctx):
    servers.prepare()

    def shard(ctx, shard, n):
        for x, case in enumerate(real_cases(ctx.quick)):
            if x % n == shard:
                ctx.case(case, real_case, case['kind'], case['payload'])
        for cfg in select_configs(ctx.quick):
            servers.run_select(ctx, cfg, shard, n)
        for cfg, depth in coop_configs(ctx.quick):
            servers.run_coop(ctx, cfg, shard, n, depth)
        servers.run_long(ctx, 'cxt', shard, n)
    ctx.shards(shard)


def replay(ctx, case):
    if case['server'] == 'real':
        ctx.case(case, real_case, case['kind'], case['payload'])
    else:
        servers.replay(ctx, case)
