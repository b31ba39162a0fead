# -*- coding: utf-8 -*-
"""C15: the server profiles only for clients and broadcasts every result."""
from __future__ import absolute_import

from mc import selectserver  # first: installs the trampolines
from mc import servers

INFO = {
    'technique': 'explicit-state model checking of the real select, gevent '
                 'and asyncio servers: all histories of connections, '
                 'disconnections and timer expirations (and of clients that '
                 'stop receiving for a while) on a model network under a '
                 'virtual clock',
    'bounds': 'select: up to 4 clients, 8 waits; every order of up to 3 '
              'simultaneous events at 4 waits; 0 to 2 wrappers, pickle '
              'protocols 0, 2 and the highest, 3 address families.  gevent '
              'and asyncio: 2 clients with 7 to 9 events (thorough 2 more), 3 with 6 '
              '(8), each event also right before the next one is noticed, '
              'sends blocking at any client',
    'assumptions': ['a client that sends anything is taken as leaving (the '
                    'protocol has no requests)',
                    'a gevent client may miss results that were broadcast '
                    'while it was still being greeted'],
}


def select_configs(quick):
    import pickle
    out = [dict(clients=4, depth=7 if quick else 8),
           dict(clients=3, depth=4 if quick else 5, together=3),
           dict(clients=2, depth=3, together=2, payload=300000,
                **{'small buffers': True}),
           dict(clients=2, depth=4, running=1)]
    for wrappers in (0, 1, 2):
        for protocol in (0, 2, pickle.HIGHEST_PROTOCOL):
            for family in (0, 1, 2):
                if wrappers + bool(family) + (protocol != 2) <= 2 or \
                        not quick:
                    out.append(dict(clients=2, depth=4, wrappers=wrappers,
                                    protocol=protocol, family=family))
    return out


def coop_configs(quick):
    more = 0 if quick else 2
    out = [(dict(server='gevent', clients=2, rush=1, blocks=1), 7 + more),
           (dict(server='gevent', clients=3, rush=1, blocks=1), 6 + more),
           (dict(server='gevent', clients=3, rooms=(99, 0, 1, 2)), 6 + more),
           (dict(server='gevent', clients=4), 8 + more),
           (dict(server='asyncio', clients=2, rush=1), 9 + more),
           (dict(server='asyncio', clients=3, rush=1), 6 + more)]
    for server in ('gevent', 'asyncio'):
        for wrappers, protocol, family in [(1, 0, 1), (2, 4, 2), (0, 1, 0)]:
            out.append((dict(server=server, clients=2, wrappers=wrappers,
                             protocol=protocol, family=family), 4))
    return out


def run(ctx):
    servers.prepare()

    def shard(ctx, shard, n):
        for cfg in select_configs(ctx.quick):
            servers.run_select(ctx, cfg, shard, n)
        for cfg, depth in coop_configs(ctx.quick):
            servers.run_coop(ctx, cfg, shard, n, depth)
        servers.run_long(ctx, 'cflt', shard, n)
    ctx.shards(shard)


replay = servers.replay
