# -*- coding: utf-8 -*-
"""Explores the three profiling servers, for C15 and C16."""
from __future__ import absolute_import

import collections

from mc import coopserver, selectserver
from mc.core import Chooser, explore_dealt, hash_state, words


def run_select(ctx, cfg, shard, n, bound=None):
    """All executions of the select-based server."""
    def once(chooser):
        world = selectserver.World(chooser, cfg)
        case = {'server': 'select', 'cfg': cfg, 'choices': chooser.choices}
        if chooser.duplicate:
            try:
                world.run()
            except BaseException:
                pass
            return
        ctx.case(case, world.run)
        ctx.step(world.calls)
        for s in world.states:
            ctx.state(s)
        ctx.outcome(('select', len(world.clients), world.inner.n))
    for __ in explore_dealt(once, shard, n, bound):
        pass


def run_coop(ctx, cfg, shard, n, depth, fan=200):
    """All histories of a cooperative server up to a depth, except that no
    state is extended twice.
    """
    seen = set()
    frontier = collections.deque([()])
    dealt = False
    while frontier:
        if not dealt and len(frontier) >= fan:
            frontier = collections.deque(
                h for x, h in enumerate(frontier) if x % n == shard)
            dealt = True
            continue
        history = frontier.popleft()
        box = []

        def body():
            m = coopserver.MACHINES[cfg['server']](cfg)
            box.append((m.run(history), m.next_events))
        if dealt or shard == 0:
            held = ctx.case({'server': cfg['server'], 'cfg': cfg,
                             'history': history}, body)
            ctx.step()
        else:
            try:
                body()
                held = True
            except Exception:
                held = False
        if not held:
            continue
        state, events = box[0]
        key = hash_state((sorted(cfg.items()), state))
        if key in seen:
            continue
        seen.add(key)
        ctx.states.add(key)
        ctx.outcome((cfg['server'], len(history)))
        if len(history) < depth:
            frontier.extend(history + (e,) for e in events)


def run_long(ctx, tokens, shard, n, events=40):
    """Long histories of all servers: a prefix and the repetition of every
    short word.
    """
    x = 0
    period = 3 if ctx.quick else 4
    for server in ('select', 'gevent', 'asyncio'):
        for prefix, longest in (('', period), ('c' * 24, period - 1)):
            for word in map(''.join, words(tokens, longest)):
                if server == 'asyncio' and 'x' in word:
                    continue
                if 'c' not in prefix + word:
                    continue
                x += 1
                if x % n != shard:
                    continue
                script = prefix + word * (events // len(word))
                ctx.case({'server': server, 'script': script}, long_case, ctx,
                         server, script)


def long_case(ctx, server, script):
    if server == 'select':
        world = selectserver.World(Chooser(), {
            'script': script, 'depth': len(script), 'clients': len(script)})
        world.run()
        state = world.states
    else:
        m = coopserver.MACHINES[server]({'server': server,
                                         'clients': len(script)})
        state = m.run(tuple(script))
    ctx.step(len(script))
    ctx.state((server, state))
    ctx.outcome((server, 'long'))


def replay(ctx, case):
    if 'script' in case:
        ctx.case(case, long_case, ctx, case['server'], case['script'])
        return
    cfg = case['cfg']
    if case['server'] == 'select':
        ctx.case(case, lambda: selectserver.World(
            Chooser(case['choices']), cfg).run())
    else:
        history = [tuple(e) for e in case['history']]
        ctx.case(case, lambda: coopserver.MACHINES[case['server']](cfg).run(
            history))


def prepare():
    """Imports what's slow to import only once."""
    import profiling.remote.asyncio  # noqa
    import profiling.remote.gevent  # noqa
