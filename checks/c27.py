# -*- coding: utf-8 -*-
"""C27: command-line values denote what they say or are rejected."""
from __future__ import absolute_import

import datetime
import itertools
import os
import signal
import socket
import string
import types

import click

from mc import cli
from mc.cli import invoke, Scratch
from mc.core import expect, expect_equal, HarnessError

import profiling.__main__ as m
from profiling.sampling import samplers, SamplingProfiler
from profiling.tracing import timers, TracingProfiler

INFO = {
    'technique': 'exhaustive enumeration of argument values over alphabets of '
                 'names, spellings and file kinds on the real command-line '
                 'interface and its parameter types',
    'bounds': 'signals: all names of the platform in 4 spellings with and '
              'without prefix, all numbers, all words up to 3 letters; timers '
              'and samplers: their names, all names of their modules with '
              'affixes, all words up to 2 (quick) / 3 (thorough) letters, '
              'stand-in modules; endpoints: 8 x 6 hosts and ports, 14 '
              'malformed; viewer sources: 10 kinds of files under 4 names; '
              'commands: all command lines up to 3 (quick) / 4 (thorough) '
              'words out of 9 against 4 groups; every command and alias of '
              'the real interface',
    'assumptions': ['the empty name of a timer or sampler is not covered'],
}


def attempt(func, *args):
    """The result or None when the value is rejected."""
    try:
        return func(*args)
    except click.UsageError:
        return None


# -- signals

NAMES = dict((n, int(v)) for n, v in vars(signal).items()
             if n.startswith('SIG') and not n.startswith('SIG_') and
             n.upper() == n)


def spellings(word):
    return sorted(set([word, word.lower(), word.upper(), word.title(),
                       word[:1].lower() + word[1:]]))


def signal_case(value):
    want = None
    if isinstance(value, int):
        want = value
    elif value.isdigit():
        want = int(value)
    else:
        upper = value.upper()
        for name, number in NAMES.items():
            if upper == name or 'SIG' + upper == name:
                want = number
    got = attempt(m.SignalNumber().convert, value, None, None)
    expect_equal(got, want, 'signal %r' % (value,))


def signal_name_case(number):
    name = m.SignalNumber.name_of(number)
    if number in NAMES.values():
        expect_equal(NAMES.get(name), number, 'the name of signal %d, %r' %
                     (number, name))
    else:
        expect_equal(name, str(number), 'the name of an unnamed signal')


def words(n):
    for length in range(1, n + 1):
        for letters in itertools.product(string.ascii_uppercase,
                                         repeat=length):
            yield ''.join(letters)


def signal_cases(ctx):
    for name in sorted(NAMES):
        for word in (name, name[3:]):
            for value in spellings(word):
                yield value
        for value in ('SIGSIG' + name[3:], name + 'X', 'X' + name[3:],
                      '-' + name, name + ' ', 'SIG_' + name[3:],
                      name[:-1] + '_', 'SIG ' + name[3:]):
            yield value
    for number in range(0, 65):
        yield number
        yield str(number)
    for value in ['', '_', 'SIG', 'sig', 'SIG_DFL', 'sig_dfl', '_DFL', '_ign',
                  'SIG_IGN', 'SIG_BLOCK', '_BLOCK', '_unblock', '_SETMASK',
                  'DFL', '-1', '1.5', '0x9', 'NALS', 'Signals', 'signals',
                  'SIG9', 'MASKS', '__name__', 'alarm', 'pause']:
        yield value
    for word in words(3):
        yield word


# -- classes

CLASSES = {
    'timer': ([timers], timers.Timer, 'basic',
              {'basic': timers.Timer, 'thread': timers.ThreadTimer,
               'greenlet': timers.GreenletTimer}),
    'sampler': ([samplers], samplers.Sampler, None,
                {'itimer': samplers.ItimerSampler,
                 'tracing': samplers.TracingSampler}),
}


def class_case(kind, value):
    """Through the option of the real commands."""
    modules, base, base_name, table = CLASSES[kind]
    want = table.get(value)
    got = attempt(option_type(kind).convert, value, None, None)
    expect_equal(got, want, '%s %r' % (kind, value))


def option_type(kind):
    for param in m.profile.params:
        if param.name == '%s_class' % kind or '--%s' % kind in param.opts:
            return param.type
    raise HarnessError('no option --%s' % kind)


def class_cases(ctx):
    for kind in sorted(CLASSES):
        modules, base, base_name, table = CLASSES[kind]
        known = set(table) | set(['contextual'])
        values = set(table)
        for mod in modules:
            for name in dir(mod):
                for value in (name, name.lower(), name.lower() + base.__name__,
                              name.replace(base.__name__, '') or name):
                    values.add(value)
        values |= set(w.lower() for w in words(2 if ctx.quick else 3))
        for name in table:
            values |= set([name[:-1], name + 's', name + ' ', '_' + name,
                           name + base.__name__.lower(),
                           name.title() + base.__name__, name + '.',
                           'profiling.' + name])
        values |= set(['timer', 'sampler', 'contextual_', 'object', 'none',
                       'default', 'yappi', 'sampling', 'profiler',
                       'runnable'])
        for value in sorted(values):
            if value.lower() in known and value not in table:
                # other spellings of a short name.
                continue
            yield [kind, value]


class Base(object):
    pass


def stub_modules():
    a, b = types.ModuleType('a'), types.ModuleType('b')
    A = type('OneBase', (Base,), {})
    B = type('OneBase', (Base,), {})
    C = type('TwoBase', (Base,), {})
    a.OneBase, b.OneBase, b.TwoBase = A, B, C
    a.TwoBase = lambda: None
    a.ThreeBase = type('ThreeBase', (object,), {})
    b.ThreeBase = 3
    a.FourBase = Base()
    b.FourBase = D = type('FourBase', (C,), {})
    a.One = type('One', (Base,), {})
    a.Base = Base
    return a, b, A, B, C, D


def stub_case(order, base_name, postfix, value):
    a, b, A, B, C, D = stub_modules()
    modules = {'ab': [a, b], 'ba': [b, a], 'a': [a], 'b': [b]}[order]
    t = m.Class(modules, Base, base_name, postfix)
    got = attempt(t.convert, value, None, None)
    want = None
    if base_name is not None and value == base_name:
        want = Base
    else:
        name = value[:1].upper() + value[1:] + ('Base' if postfix else '')
        for mod in modules:
            cls = vars(mod).get(name)
            if isinstance(cls, type) and issubclass(cls, Base):
                want = cls
                break
    expect(got is want, 'class %r of %s: got %r, want %r', value, order, got,
           want)


def stub_cases():
    return itertools.product(['ab', 'ba', 'a', 'b'], [None, 'basic', 'one'],
                             [True, False],
                             ['basic', 'one', 'two', 'three', 'four', 'five'])


# -- endpoints

HOSTS = ['localhost', '127.0.0.1', '0.0.0.0', 'example.com', 'a-b_c', '10',
         'HOST', 'h']
PORTS = [0, 1, 80, 8912, 65535, 10000]
MALFORMED = ['', 'host', '80', 'host:', ':', 'host:port', 'host:80:90',
             '::1', 'a:b:c:80', 'host:8x', 'host:0x50', 'host: x', 'a:1.5',
             'host;80']


def endpoint_case(value, want):
    got = attempt(m.Endpoint().convert, value, None, None)
    if got is not None:
        got = list(got)
    expect_equal(got, want, 'endpoint %r' % value)


def endpoint_cases():
    for host in HOSTS:
        for port in PORTS:
            yield '%s:%d' % (host, port), [host, port]
    for value in MALFORMED:
        yield value, None


# -- viewer sources

KINDS = ['missing', 'file', 'empty', 'socket', 'directory', 'fifo',
         'link-file', 'link-socket', 'link-directory', 'link-missing']
SOURCE_NAMES = ['x', 'dump.prf', 'localhost:80', 'dir/y']


def make_file(kind, name):
    if kind.startswith('link-'):
        target = os.path.abspath('target')
        make_file(kind[5:], target)
        os.symlink(target, name)
    elif kind in ('file', 'empty'):
        with open(name, 'wb') as f:
            f.write(b'x' if kind == 'file' else b'')
    elif kind == 'directory':
        os.mkdir(name)
    elif kind == 'fifo':
        os.mkfifo(name)
    elif kind == 'socket':
        s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        s.bind(name)
        s.close()
    elif kind != 'missing':
        raise HarnessError(kind)


def clear(path):
    for dirpath, dirs, files in os.walk(path, topdown=False):
        for f in files:
            os.unlink(os.path.join(dirpath, f))
        for d in dirs:
            d = os.path.join(dirpath, d)
            if os.path.islink(d):
                os.unlink(d)
            else:
                os.rmdir(d)


def source_case(scratch, kind, name, absolute):
    clear(scratch.path)
    os.mkdir('dir')
    make_file(kind, name)
    value = os.path.abspath(name) if absolute else name
    real = kind.replace('link-', '')
    if real in ('file', 'empty'):
        want = ('dump', value)
    elif real == 'socket':
        want = ('sock', value)
    elif real == 'missing' and ':' in name:
        want = ('tcp', tuple([value.rpartition(':')[0],
                              int(value.rpartition(':')[2])]))
    else:
        want = None
    got = attempt(m.ViewerSource().convert, value, None, None)
    expect_equal(got, want, 'source %r, %s' % (name, kind))
    # the whole command.
    if want is not None and want[0] == 'dump':
        return
    r = invoke(['view', value])
    if want is None:
        expect(isinstance(r.exc, click.UsageError),
               'viewing %r, %s: %r', name, kind, r.exc)
        expect(not r.clients and not r.loops, 'viewing a rejected source')
        return
    expect(not r.rejected, 'viewing %r, %s: %r', name, kind, r.exc)
    client, = r.clients
    family = socket.AF_UNIX if want[0] == 'sock' else socket.AF_INET
    expect_equal((client.addr, client.family), (want[1], family),
                 'where the viewer of %r connects to' % name)
    title = '%s:%d' % want[1] if want[0] == 'tcp' else os.path.basename(name)
    expect_equal(client.title, title, 'the title')
    expect_equal(len(r.loops), 1, 'viewers run')
    expect(r.loops[0] is client.viewer, 'the viewer of the client')


def dump_case(scratch, profiler_args, name, mono):
    """What was dumped is what is viewed."""
    clear(scratch.path)
    os.mkdir('dir')
    with open('prog.py', 'w') as f:
        f.write('def f(): pass\nf()\nf()\n')
    r = invoke(['profile'] + profiler_args + ['--dump', name, 'prog.py'],
               stub_dump=False)
    expect(not r.rejected, 'profiling: %r', r.exc)
    expect(name in r.out, 'how to view the dump is not told')
    os.utime(name, (1500000000, 1500000000.0))
    r = invoke(['view', name] + (['--mono'] if mono else []))
    expect(not r.rejected, 'viewing a dump: %r', r.exc)
    expect_equal(len(r.loops), 1, 'viewers run')
    expect(not r.clients, 'a client for a dump')
    expect_equal(r.colors, [1] if mono else [], 'colors set')
    viewer = r.loops[0]
    cls = SamplingProfiler if '-S' in profiler_args else TracingProfiler
    expect(isinstance(viewer.table, cls.table_class), 'the table: %r',
           viewer.table)
    text = b'\n'.join(viewer.widget.render((100, 20)).text).decode('utf-8')
    expect(os.path.basename(name) in text, 'no title %r:\n%s', name, text)
    if cls is TracingProfiler:
        expect('prog.py' in text, 'no statistics:\n%s', text)
    at = datetime.datetime.fromtimestamp(1500000000)
    expect(at.strftime('%H:%M:%S') in text or str(at.year) in text,
           'not the time of the dump:\n%s', text)


# -- commands

WORDS = ['foo', 'fo', 'f', 'bar', 'b', 'baz', 'x', '-n', '1']
#: the commands of a group with aliases and the default one.
GROUPS = [
    ({'foo': ['f', 'fo'], 'bar': []}, 'bar'),
    ({'foo': [], 'bar': ['b', 'fo']}, 'foo'),
    ({'foo': ['f'], 'bar': ['b'], 'baz': ['x']}, 'baz'),
    ({'bar': None, 'foo': ['b']}, 'bar'),
]


def command_case(group, args):
    commands, default = GROUPS[group]
    calls = []
    g = m.ProfilingCLI(default=default)
    for name in sorted(commands):
        aliases = commands[name]
        kwargs = {} if aliases is None else {'aliases': aliases}

        def f(a, n, name=name):
            calls.append((name, list(a), n))
        f = click.argument('a', nargs=-1)(f)
        f = click.option('-n', type=int)(f)
        cmd = g.command(name, **kwargs)(f)
        expect(isinstance(cmd, click.Command) and cmd.name == name,
               'the decorator gives %r', cmd)
    table = dict((n, n) for n in commands)
    for n, aliases in commands.items():
        table.update((a, n) for a in aliases or ())
    if args and args[0] in table:
        name, rest = table[args[0]], args[1:]
    else:
        name, rest = default, args
    # what click makes of the rest.
    a, n, bad, it = [], None, False, iter(rest)
    for word in it:
        if word == '-n':
            try:
                n = int(next(it))
            except (StopIteration, ValueError):
                bad = True
        else:
            a.append(word)
    try:
        g.main(args=list(args), prog_name='x', standalone_mode=False)
    except click.UsageError as exc:
        expect(bad, '%r is rejected: %s', args, exc.message)
        return
    expect(not bad, '%r is accepted', args)
    if not args:
        # it prints the usage.
        expect_equal(calls, [], 'calls without arguments')
        return
    expect_equal(calls, [(name, a, n)], 'calls by %r' % (args,))


REAL = ['profile', 'live-profile', 'live', 'remote-profile', 'remote', 'view',
        'timeit-profile', 'timeit', None, 'liv', 'time', 'views', 'Profile',
        'remote-', 'main', '-S', '--mono', '-m', '-c']


def real_case(scratch, word):
    """Which command of the real interface runs."""
    clear(scratch.path)
    for name in ('prog.py', 'liv', 'liv.py', 'time', 'views', 'Profile', 'remote-',
                 'main'):
        with open(name, 'w') as f:
            f.write('import sys\nsys.seen = list(sys.argv)\n')
    with open('dump.prf', 'w') as f:
        pass
    forks = []

    def fork():
        forks.append(1)
        return 0
    import sys
    sys.seen = None
    live = word in ('live', 'live-profile')
    if word == 'view':
        args = ['view', 'h:80']
    elif word in ('timeit', 'timeit-profile'):
        args = [word, '-n', '1', 'import sys; sys.seen = "timeit"']
    elif word == '-m':
        args = ['-m', 'liv', 'x']
    elif word == '-c':
        args = ['-c', 'import sys; sys.seen = list(sys.argv)', 'x']
    elif word in ('-S', '--mono'):
        args = [word, 'prog.py', 'x']
    elif word is None:
        args = ['prog.py', 'x']
    elif word in ('profile', 'live-profile', 'live', 'remote-profile',
                  'remote'):
        args = [word, 'prog.py', 'x']
    else:
        args = [word, 'x']
    with cli.patches((sys.modules['__main__'], '__file__', 'x')):
        r = invoke(args, fork=fork if live else None)
    expect(not r.rejected, '%r: %r', args, r.exc)
    seen, sys.seen = sys.seen, None
    kind = ('live' if forks else 'remote' if r.sockets else
            'view' if r.clients else 'timeit' if seen == 'timeit' else
            'profile' if r.loops else 'nothing')
    want = (word or '').replace('-profile', '')
    if want not in ('live', 'remote', 'view', 'timeit'):
        want = 'profile'
    expect_equal(kind, want, 'the command which ran for %r' % args)
    if want in ('profile', 'live', 'remote'):
        expect_equal(seen[1:], ['x'], 'arguments of the script')
        expect_equal(r.colors, [1] if word == '--mono' else [], 'colors')


# -- all

def cases(ctx):
    out = []
    out += [['signal', v] for v in signal_cases(ctx)]
    out += [['signal name', n] for n in range(0, 65)]
    out += [['class', k, v] for k, v in class_cases(ctx)]
    out += [['stub'] + list(c) for c in stub_cases()]
    out += [['endpoint', v, w] for v, w in endpoint_cases()]
    out += [['source', k, n, a] for k in KINDS for n in SOURCE_NAMES
            for a in (False, True)]
    out += [['dump', p, n, mono] for p in
            ([], ['-S'], ['--pickle-protocol=0'], ['-S', '--sampler=tracing'],
             ['--timer=thread', '--pickle-protocol=2'])
            for n in ('x', 'dump.prf', 'localhost:80', 'dir/y')
            for mono in (False, True)]
    for group in range(len(GROUPS)):
        for n in range(0, 4 if ctx.quick else 5):
            out += [['command', group, list(a)]
                    for a in itertools.product(WORDS, repeat=n)
                    if n or group >= 0]
    out += [['real', w] for w in REAL]
    return out


def one(scratch, kind, *args):
    if kind == 'signal':
        signal_case(*args)
    elif kind == 'signal name':
        signal_name_case(*args)
    elif kind == 'class':
        class_case(*args)
    elif kind == 'stub':
        stub_case(*args)
    elif kind == 'endpoint':
        endpoint_case(*args)
    elif kind == 'source':
        source_case(scratch, *args)
    elif kind == 'dump':
        dump_case(scratch, *args)
    elif kind == 'command':
        with cli.patches((os.sys, 'stdout', cli.Capture(1))):
            command_case(*args)
    elif kind == 'real':
        real_case(scratch, *args)
    else:
        raise HarnessError(kind)


def run(ctx):
    def work(ctx, shard, n):
        with Scratch() as scratch:
            for case in cases(ctx)[shard::n]:
                ctx.step()
                ctx.state(repr(case))
                ctx.case(case, one, scratch, *case)
                ctx.outcome(case[0])
    ctx.shards(work)


def replay(ctx, case):
    with Scratch() as scratch:
        ctx.case(case, one, scratch, *case)
