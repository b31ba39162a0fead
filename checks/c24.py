# -*- coding: utf-8 -*-
"""C24: options come from command line, then .profiling, then setup.cfg."""
from __future__ import absolute_import

import itertools
import os
import signal
import socket

from mc import cli
from mc.cli import invoke, Scratch
from mc.core import expect, expect_equal, HarnessError

from profiling import remote
from profiling.sampling import samplers, SamplingProfiler
from profiling.tracing import timers, TracingProfiler

INFO = {
    'technique': 'exhaustive enumeration of option sources and values, and of '
                 'sequences of invocations, on the real command-line '
                 'interface in-process',
    'bounds': 'every command; per option all combinations of up to 3 values '
              '(and a malformed one) from the three sources in each spelling; '
              'every pair of options with all presence patterns of the three '
              'sources; the product of profiler, timer, sampler and interval '
              'over the sources; all sequences of 3 (quick) / 4 (thorough) '
              'invocations out of 10 configurations',
    'assumptions': ['servers, sockets, terminals and monkey patching are '
                    'stand-ins; a malformed value may be refused by any '
                    'error'],
}

BAD = 'b-a-d'
DEFAULT = {
    'profiler': 'tracing', 'timer': 'basic', 'sampler': 'itimer',
    'sampling-interval': 0.001, 'pickle-protocol': remote.PICKLE_PROTOCOL,
    'interval': 1, 'spawn': 'threading', 'signum': signal.SIGUSR2,
    'endpoint': ('127.0.0.1', 8912),
}
#: texts and what they mean.
VALUES = {
    'profiler': [('sampling', 'sampling'), ('tracing', 'tracing')],
    'timer': [('greenlet', 'greenlet'), ('thread', 'thread'),
              ('basic', 'basic')],
    'sampler': [('tracing', 'tracing'), ('itimer', 'itimer')],
    'sampling-interval': [('0.5', 0.5), ('0.00025', 0.00025), ('3', 3.0),
                          ('1e-1', 0.1), ('1e-06', 1e-06)],
    'pickle-protocol': [('2', 2), ('0', 0), ('3', 3)],
    'interval': [('0.5', 0.5), ('2', 2.0), ('10', 10.0)],
    'spawn': [('gevent', 'gevent'), ('eventlet', 'eventlet'),
              ('threading', 'threading')],
    'signum': [('SIGUSR1', signal.SIGUSR1), ('usr2', signal.SIGUSR2),
               (str(int(signal.SIGXCPU)), signal.SIGXCPU)],
    'endpoint': [('10.1.2.3:80', ('10.1.2.3', 80)),
                 ('localhost:9999', ('localhost', 9999)),
                 ('0.0.0.0:1', ('0.0.0.0', 1))],
}
PROFILER = ['profiler', 'timer', 'sampler', 'sampling-interval',
            'pickle-protocol']
LIVE = PROFILER + ['interval', 'spawn', 'signum']
COMMANDS = {
    'profile': PROFILER,
    'timeit-profile': PROFILER,
    'live-profile': LIVE,
    'remote-profile': LIVE + ['endpoint'],
    'view': ['endpoint'],
}
TIMERS = {'basic': timers.Timer, 'thread': timers.ThreadTimer,
          'greenlet': timers.GreenletTimer}
SAMPLERS = {'itimer': samplers.ItimerSampler,
            'tracing': samplers.TracingSampler}
SOURCES = ('cli', 'dot', 'cfg')


def spell(option, text, long, command):
    """An option at the command line."""
    if option == 'profiler':
        if text == BAD:
            return None
        return [{('tracing', 0): '-T', ('tracing', 1): '--tracing',
                 ('sampling', 0): '-S', ('sampling', 1): '--sampling'}
                [text, long]]
    if option == 'endpoint':
        if command == 'view':
            return [text]
        return ['--bind', text] if long else ['-b', text]
    if option == 'interval' and not long:
        return ['-i', text]
    return ['--%s=%s' % (option, text)] if long else \
        ['--%s' % option, text]


def effective(setting):
    """The text in effect.
    :param setting: a dictionary of the texts by the sources.
    """
    for source in SOURCES:
        if setting.get(source) is not None:
            return setting[source]


def expected(command, settings):
    """The values in effect or None when the command is rejected."""
    out = dict((o, DEFAULT[o]) for o in COMMANDS[command])
    for option, setting in settings.items():
        if option not in COMMANDS[command]:
            continue
        text = effective(setting)
        if text is None:
            continue
        if text == BAD:
            return None
        for t, value in VALUES[option]:
            if t == text:
                out[option] = value
                break
        else:
            raise HarnessError('unknown value %r' % text)
    return out


NO_FILE = {'none': None, 'empty': '', 'other':
           '[flake8]\nprofiler = sampling\ntimer = thread\n'
           'pickle-protocol = 1\ninterval = 7\nendpoint = 1.2.3.4:5\n',
           'bare': '[profiling]\n'}


def config(settings, source, style):
    entries = [(o, s[source]) for o, s in sorted(settings.items())
               if s.get(source) is not None]
    if not entries:
        return NO_FILE[style]
    sep = ' = ' if style in ('none', 'other') else ': '
    lines = ['[profiling]'] + [o + sep + t for o, t in entries] + ['']
    if style == 'other':
        lines = ['[flake8]', 'profiler = sampling', 'timer = thread',
                 'pickle-protocol = 1', ''] + lines + \
            ['[tool]', 'interval = 9', 'signum = 3', '']
    return '\n'.join(lines)


def invocation(scratch, command, settings, style='none', long=0, late=0):
    """One invocation of the command-line interface."""
    scratch.write('setup.cfg', config(settings, 'cfg', style))
    scratch.write('.profiling', config(settings, 'dot', style))
    options = []
    for option, setting in sorted(settings.items(),
                                  reverse=bool(long)):
        text = setting.get('cli')
        if text is not None and option in COMMANDS[command]:
            options += spell(option, text, long, command)
    if command == 'view':
        args = ['view'] + options
    else:
        if command in ('profile', 'timeit-profile'):
            options += ['--dump=out.prf']
        if command == 'timeit-profile':
            options += ['-n', '1']
        script = ['pass'] if command == 'timeit-profile' else ['prog.py']
        args = [command] + (script + options if late else options + script)
    r = invoke(args, fork=(lambda: 0) if command == 'live-profile' else None)
    values = expected(command, settings)
    if values is None:
        expect(r.rejected, 'a malformed value is accepted: %r', args)
        expect(not r.dumps and not r.served and not r.loops,
               'the command runs with a malformed value: %r', args)
        return
    if r.rejected:
        expect(False, '%r is rejected: %s: %s', args, type(r.exc).__name__,
               r.exc)
    if command == 'view':
        expect_equal(len(r.clients), 1, 'clients of the viewer')
        client, = r.clients
        expect_equal((client.addr, client.family),
                     (values['endpoint'], socket.AF_INET),
                     'where the viewer connects to')
        return
    if command in ('profile', 'timeit-profile'):
        expect_equal(len(r.dumps), 1, 'dumps')
        profiler, filename, protocol = r.dumps[0]
        expect_equal(os.path.realpath(filename), os.path.realpath('out.prf'),
                     'the dump')
    else:
        expect_equal(len(r.served), 1, 'servers started')
        (kind, server, where), = r.served
        expect_equal(kind, 'connected' if command == 'live-profile' else
                     'forever', 'what the server does')
        protocol = server.pickle_protocol
        expect_equal(float(server.interval), float(values['interval']),
                     'the interval')
        spawns = {'threading': 'thread', 'gevent': 'gevent',
                  'eventlet': 'main'}
        expect_equal(where, spawns[values['spawn']], 'the context of the '
                     'server')
        expect_equal(r.spawned, ['eventlet'] if values['spawn'] == 'eventlet'
                     else [], 'contexts spawned by eventlet')
        patched = {'threading': [],
                   'gevent': [('gevent', 'select'), ('gevent', 'socket')],
                   'eventlet': [('eventlet', ['select', 'socket'])]}
        expect_equal(sorted(r.patched), patched[values['spawn']],
                     'the monkey patches')
        expect_equal([int(s) for s in r.handlers], [int(values['signum'])],
                     'the signals with a new handler')
        if command == 'remote-profile':
            listener, = r.sockets
            expect_equal((listener.bound, listener.listening),
                         (values['endpoint'], True), 'the listener')
            expect(server.listener is listener, 'other listener served')
        profiler = server.profiler.profiler
        expect_equal(int(server.profiler.signum), int(values['signum']),
                     'the signal of the background profiler')
    expect_equal(protocol, values['pickle-protocol'], 'the pickle protocol')
    if values['profiler'] == 'tracing':
        expect_equal(type(profiler), TracingProfiler, 'the profiler')
        expect_equal(type(profiler.timer), TIMERS[values['timer']],
                     'the timer')
    else:
        expect_equal(type(profiler), SamplingProfiler, 'the profiler')
        expect_equal(type(profiler.sampler), SAMPLERS[values['sampler']],
                     'the sampler')
        expect_equal(float(profiler.sampler.interval),
                     float(values['sampling-interval']),
                     'the sampling interval')


# -- families

def texts(option, bad=False):
    out = [t for t, __ in VALUES[option]]
    return [None] + out + ([BAD] if bad else [])


def single_cases():
    """Every option by itself: all values from all sources."""
    for command, options in sorted(COMMANDS.items()):
        for option in options:
            base = {}
            if option in ('sampler', 'sampling-interval'):
                base = {'profiler': {'cli': 'sampling'}}
            for i, (a, b, c) in enumerate(itertools.product(
                    texts(option, True), repeat=3)):
                if option == 'profiler' and a == BAD:
                    continue
                if command == 'view' and a == BAD:
                    # it may be a file name.
                    continue
                settings = dict(base)
                settings[option] = {'cli': a, 'dot': b, 'cfg': c}
                style = sorted(NO_FILE)[i % len(NO_FILE)]
                yield [command, settings, style, i // 2 % 2, i // 3 % 2]


def pattern(option, bits, shift=0):
    """Values of an option from the sources which are in the pattern."""
    vals = [t for t, __ in VALUES[option]]
    out = {}
    for k, source in enumerate(SOURCES):
        if bits >> k & 1:
            out[source] = vals[(k + shift) % len(vals)]
    return out


def pair_cases(ctx):
    """All presence patterns of the sources for each pair of options."""
    for command, options in sorted(COMMANDS.items()):
        for x, y in itertools.combinations(options, 2):
            for i, (p, q) in enumerate(itertools.product(range(8), repeat=2)):
                for shift in range(1 if ctx.quick else 3):
                    settings = {x: pattern(x, p, shift),
                                y: pattern(y, q, shift * 2)}
                    if 'profiler' not in settings and \
                            set([x, y]) & set(['sampler',
                                               'sampling-interval']):
                        settings['profiler'] = {SOURCES[i % 3]: 'sampling'}
                    style = sorted(NO_FILE)[(p + 3 * q) % len(NO_FILE)]
                    yield [command, settings, style, p % 2, q % 2]
        # all at once, from every mixture of a pattern and its neighbours.
        for p in range(8):
            for q in range(8):
                settings = dict((o, pattern(o, (p, q)[k % 2]))
                                for k, o in enumerate(options))
                yield [command, settings, 'other', p % 2, q % 2]


def product_cases(ctx):
    """What makes the profiler."""
    commands = ['profile'] if ctx.quick else sorted(COMMANDS)
    for command in commands:
        if command == 'view':
            continue
        for bits in itertools.product([0, 1, 2, 4], repeat=4):
            for shift in (0, 1):
                yield [command, dict(
                    (o, pattern(o, b, shift))
                    for o, b in zip(PROFILER[:4], bits)), 'other', 0, 0]


def foreign_cases():
    """Settings for other commands don't matter."""
    for command, options in sorted(COMMANDS.items()):
        foreign = [o for o in VALUES if o not in options]
        for n in range(1, len(foreign) + 1):
            for chosen in itertools.combinations(foreign, n):
                for source in ('dot', 'cfg'):
                    yield [command, dict((o, {source: BAD}) for o in chosen),
                           'none', 0, 0]


#: invocations of which sequences are made.
STEPS = [
    ['profile', {}, 'none', 0, 0],
    ['profile', {'profiler': {'cfg': 'sampling'},
                 'sampler': {'cfg': 'tracing'}}, 'none', 0, 0],
    ['profile', {'profiler': {'dot': 'tracing', 'cfg': 'sampling'},
                 'timer': {'cfg': 'thread'}}, 'none', 0, 0],
    ['profile', {'profiler': {'cli': 'sampling'},
                 'pickle-protocol': {'cfg': '0', 'dot': '3'}}, 'none', 0, 0],
    ['profile', {'timer': {'dot': BAD}}, 'none', 0, 0],
    ['timeit-profile', {'timer': {'dot': 'greenlet'}}, 'none', 0, 0],
    ['remote-profile', {'endpoint': {'dot': '10.1.2.3:80'},
                        'interval': {'cfg': '2'}}, 'none', 0, 0],
    ['remote-profile', {'spawn': {'cfg': 'eventlet'},
                        'signum': {'dot': 'SIGUSR1'}}, 'none', 0, 0],
    ['view', {'endpoint': {'cfg': 'localhost:9999'}}, 'none', 0, 0],
    ['view', {'endpoint': {'cli': '0.0.0.0:1', 'dot': '10.1.2.3:80'}},
     'none', 0, 0],
]


def sequence_cases(ctx):
    for seq in itertools.product(range(len(STEPS)),
                                 repeat=3 if ctx.quick else 4):
        yield ['sequence'] + list(seq)


def cases(ctx):
    out = []
    for family in (single_cases(), pair_cases(ctx), product_cases(ctx),
                   foreign_cases(), sequence_cases(ctx)):
        out.extend(family)
    return out


def one(scratch, case):
    scratch.write('prog.py', 'pass\n')
    if case[0] == 'sequence':
        for x, k in enumerate(case[1:]):
            try:
                invocation(scratch, *STEPS[k])
            except Exception as exc:
                exc.args = ('invocation %d: %s' % (x, exc),)
                raise
        return
    invocation(scratch, *case)


def run(ctx):
    def work(ctx, shard, n):
        with Scratch() as scratch:
            for case in cases(ctx)[shard::n]:
                ctx.step(len(case) - 1 if case[0] == 'sequence' else 1)
                ctx.state(repr(case))
                ctx.case(case, one, scratch, case)
                ctx.outcome(case[0])
    ctx.shards(work)


def replay(ctx, case):
    with Scratch() as scratch:
        ctx.case(case, one, scratch, case)
