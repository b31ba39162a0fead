# -*- coding: utf-8 -*-
"""C25: profiling a script always reports, as if the script ran alone."""
from __future__ import absolute_import

import itertools
import json
import os
import pickle
import signal
import subprocess
import sys
import threading

from mc import env
env.install(*env.CLOCKS)
from mc import cli
from mc.cli import invoke, Scratch
from mc.core import expect, expect_equal, HarnessError, REPO

import click
import greenlet

from profiling.sampling import SamplingProfiler
from profiling.stats import FrozenStatistics
from profiling.tracing import TracingProfiler
from profiling.viewer import StatisticsViewer

INFO = {
    'technique': 'exhaustive enumeration of programs, their sources, ends, '
                 'arguments and outputs on the real profile and timeit '
                 'commands in-process; the namespace of the program is '
                 'compared with direct runs',
    'bounds': 'script, script in a directory, module, package, package '
              'module and command string x 6 profilers x 17 ways to end at 3 '
              'depths x 4 outputs; 16 command lines for the arguments x '
              'sources; 10 forms of source text; timeit: 12 statements x '
              'numbers 1-3, 7 and calibrated by 7 costs x setups x '
              '4 profilers x 2 outputs',
    'assumptions': ['the first item of argv is the file name also for modules '
                    'and command strings', 'the calls by which the profiler '
                    'itself starts and stops may be in the result',
                    'errors while timeit determines the number are not '
                    'covered'],
}

PROFILERS = {
    'tracing': [], 'thread': ['--timer=thread'],
    'greenlet': ['--timer', 'greenlet'], 'sampling': ['-S'],
    'sampling-tracing': ['-S', '--sampler=tracing', '--sampling-interval=0'],
    'long': ['--tracing', '--timer=basic'],
}

#: statements by which a program ends, what they print at least, and the name
#: of the exception.
ENDS = {
    'normal': ('pass', None, None),
    'ValueError': ('raise ValueError("boom")', 'boom', 'ValueError'),
    'exit': ('import sys; sys.exit()', '', 'SystemExit'),
    'exit3': ('import sys; sys.exit(3)', '3', 'SystemExit'),
    'exit-text': ('import sys; sys.exit("bye")', 'bye', 'SystemExit'),
    'SystemExit': ('raise SystemExit', '', 'SystemExit'),
    'KeyboardInterrupt': ('raise KeyboardInterrupt', '', 'KeyboardInterrupt'),
    'SIGINT': ('import os, signal, time; os.kill(os.getpid(), signal.SIGINT)\n'
               '%sfor i in range(1000): time.sleep(.01)', '',
               'KeyboardInterrupt'),
    'GeneratorExit': ('raise GeneratorExit', '', 'GeneratorExit'),
    'StopIteration': ('next(iter([]))', '', 'StopIteration'),
    'custom': ('raise type("Custom", (BaseException,), {})("c")', 'c',
               'Custom'),
    'unprintable': ('raise type("Odd", (Exception,), {"__str__": '
                    'lambda s: 1 // 0})()', '', 'Odd'),
    'chained': ('try: {}[1]\n%sexcept KeyError: raise ValueError("second")',
                'second', 'ValueError'),
    'cause': ('raise ValueError("second") from KeyError("first")', 'first',
              'ValueError'),
    'syntax': ('compile("x x", "other", "exec")', '', 'SyntaxError'),
    'unset': ('import sys; sys.setprofile(None)', None, None),
    'profiled': ('import sys; sys.setprofile(lambda *x: None)', None, None),
    'chdir': ('import os; os.chdir("..")', None, None),
}

SOURCES = ['script', 'directory', 'module', 'package', 'submodule', 'command']
OUTPUTS = ['dump', 'view', 'view-interrupt', 'mono']

HEADER = '''\
import sys
sys.mc_seen.append((sys.argv[:], __name__, globals().get('__file__'),
                    __package__,
                    list(filter(globals().__contains__, 'fgh'))))
'''


def program(end, depth):
    """A program which calls f() twice, which call g() each, and ends at the
    second time at the given depth.
    """
    stmt = ENDS[end][0]

    def at(d, indent):
        text = stmt % indent if '%s' in stmt else stmt
        return '%sif count[0] == 2:\n%s %s\n' % \
            (indent, indent, text.replace('\n', '\n ')) \
            if d == depth else ''
    return (HEADER + 'count = [0]\n'
            'def g():\n count[0] += 1\n' + at(2, ' ') +
            'def f():\n g()\n' + at(1, ' ') +
            'f()\nf()\n' + at(0, ''))


def write(path, text):
    if isinstance(text, bytes):
        with open(path, 'wb') as f:
            f.write(text)
    else:
        with open(path, 'w') as f:
            f.write(text)


SERIAL = [0]


def source(scratch, kind, text):
    """Makes a source of a program.  Returns the arguments which choose it and
    the file name.
    """
    # a module of the same name could be cached.
    SERIAL[0] += 1
    base = 'prog%d' % SERIAL[0]
    if kind == 'script':
        write(base + '.py', text)
        return [base + '.py'], base + '.py', None
    elif kind == 'directory':
        os.mkdir(base + 'd')
        path = os.path.join(base + 'd', 'x y.py')
        write(path, text)
        return [path], path, None
    elif kind == 'module':
        write(base + '.py', text)
        return ['-m', base], base + '.py', ''
    elif kind == 'package':
        os.mkdir(base)
        write(os.path.join(base, '__init__.py'), '')
        write(os.path.join(base, '__main__.py'), text)
        return ['-m', base], os.path.join(base, '__main__.py'), base
    elif kind == 'submodule':
        os.mkdir(base)
        write(os.path.join(base, '__init__.py'), '')
        write(os.path.join(base, 'sub.py'), text)
        return ['-m', base + '.sub'], os.path.join(base, 'sub.py'), base
    elif kind == 'command':
        return ['-c', text], '<string>', None
    raise HarnessError(kind)


def cleanup(scratch):
    """Removes what the cases left."""
    import shutil
    for name in os.listdir(scratch.path):
        path = os.path.join(scratch.path, name)
        if os.path.isdir(path):
            shutil.rmtree(path)
        else:
            os.unlink(path)
    for name in list(sys.modules):
        if name.startswith('prog') and name[4:5].isdigit():
            del sys.modules[name]


def same_file(path, filename):
    if filename == '<string>':
        return path == filename
    return path is not None and \
        os.path.realpath(path) == os.path.realpath(filename)


PACKAGE = os.path.realpath(os.path.join(REPO, 'profiling'))


def tree(stats, top=True):
    """The functions which aren't of the profiler itself."""
    out = []
    for child in stats:
        path = os.path.realpath(child.filename or '')
        if top and path.startswith(PACKAGE + os.sep):
            expect(os.path.basename(path) != '__main__.py',
                   'the command-line interface is in the result: %r',
                   child.name)
            continue
        out.append((child.name, child.filename, child.own_hits,
                    tree(child, False)))
    return sorted(out, key=lambda x: x[0] or '')


def hooks(r, own=False):
    """Nothing is left installed."""
    expect(own or r.profile is None, 'a profile function is left: %r', r.profile)
    expect(getattr(threading, '_profile_hook', None) is None,
           'a profile function for threads is left')
    expect_equal(signal.getitimer(signal.ITIMER_PROF), (0.0, 0.0),
                 'the profiling timer')
    expect(greenlet.gettrace() is None, 'a greenlet trace function is left')
    left = dict((s, h) for s, h in r.handlers.items()
                if not (s == signal.SIGPROF and h == signal.SIG_IGN))
    expect_equal(left, {}, 'signal handlers left')


class Results(object):
    """Records the results which are set to viewers."""

    def __init__(self):
        self.results = []
        self.real = StatisticsViewer.set_result
        results = self.results

        def set_result(viewer, stats, cpu_time=0.0, wall_time=0.0,
                       title=None, at=None):
            results.append((viewer, stats, cpu_time, wall_time, title))
            return self.real(viewer, stats, cpu_time, wall_time,
                             title=title, at=at)
        self.patch = (StatisticsViewer, 'set_result', set_result)


def run_command(args, output, own=False):
    """Runs a command and returns its record and result."""
    rec = Results()
    classes = []
    real = StatisticsViewer.set_profiler_class

    def set_profiler_class(viewer, cls):
        classes.append(cls)
        return real(viewer, cls)

    def on_loop(loop):
        if output == 'view-interrupt':
            raise KeyboardInterrupt
    if output == 'dump':
        args = args[:1] + ['--dump', 'out.prf'] + args[1:]
    elif output == 'mono':
        args = args[:1] + ['--mono'] + args[1:]
    cwd = os.getcwd()
    sigint = signal.getsignal(signal.SIGINT)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    try:
        r = invoke(args, on_loop=on_loop, stub_dump=False,
                   extra=[rec.patch,
                          (StatisticsViewer, 'set_profiler_class',
                           set_profiler_class)])
    finally:
        os.chdir(cwd)
        signal.signal(signal.SIGINT, sigint)
    expect(not r.rejected, '%r ends by %s: %s', args, type(r.exc).__name__,
           r.exc)
    hooks(r, own)
    if output == 'dump':
        expect(os.path.exists('out.prf'), 'no dump')
        expect('out.prf' in r.out, 'the dump is not told: %r', r.out)
        expect(not r.loops, 'a viewer beside the dump')
        with open('out.prf', 'rb') as f:
            cls, (stats, cpu, wall) = pickle.load(f)
        expect(isinstance(stats, FrozenStatistics), 'dumped %r', stats)
        os.unlink('out.prf')
        return r, cls, stats, None
    expect_equal(len(r.loops), 1, 'viewers run')
    expect(not os.path.exists('out.prf'), 'a dump')
    expect_equal(r.colors, [1] if output == 'mono' else [], 'colors')
    expect_equal(len(rec.results), 1, 'results viewed')
    viewer, stats, cpu, wall, title = rec.results[0]
    expect(viewer is r.loops[0], 'other viewer')
    expect_equal(len(classes), 1, 'profiler classes viewed')
    return r, classes[0], stats, title


def check_stderr(r, end, filename):
    text, name = ENDS[end][1:]
    if name is None:
        expect_equal(r.err, '', 'standard error')
        return
    expect_equal(r.err.count('Traceback (most recent call last):\n'),
                 2 if end == 'chained' else 1, 'tracebacks in %r' %
                 r.err)
    lines = r.err.rstrip('\n').splitlines()
    expect(lines[-1].startswith(name) or
           lines[-1].startswith('__main__.' + name),
           'the exception is not told: %r', r.err)
    expect(text in r.err, 'no %r in %r', text, r.err)
    expect(os.path.basename(filename) in r.err, 'no %s in %r', filename,
           r.err)


def expected_tree(filename, cls):
    return [(None, 1, []), ('f', 2, [('g', 2, [])])]


def shape(nodes):
    return [(n, h, shape(c)) for n, f, h, c in nodes]


def names_within(nodes, allowed):
    for n, f, h, children in nodes:
        expect(n in allowed, 'not a call of the program: %r in %r', n, f)
        names_within(children, allowed[n])


def profile_case(scratch, kind, profiler, end, depth, output):
    text = program(end, depth)
    sys.mc_seen = seen = []
    chooser, filename, package = source(scratch, kind, text)
    args = ['profile'] + PROFILERS[profiler] + chooser
    if kind in ('script', 'directory'):
        args += ['--', '-x', 'y', '--dump', 'no']
    else:
        args += ['--', '-x', 'y', '--dump', 'no']
    r, cls, stats, title = run_command(args, output, end == 'profiled')
    check_program(r, seen, filename, package, ['-x', 'y', '--dump', 'no'])
    check_stderr(r, end, filename)
    want = SamplingProfiler if 'sampling' in profiler else TracingProfiler
    expect(cls is want, 'the result of %r', cls)
    nodes = tree(stats)
    for name, path, hits, children in nodes:
        if name in (None, 'f'):
            expect(same_file(path, filename), 'calls of another file: %r',
                   path)
    lenient = end in ('unset', 'profiled', 'SIGINT', 'unprintable')
    if cls is TracingProfiler and end not in ('unset', 'profiled'):
        expect_equal(shape([x for x in nodes if x[0] in (None, 'f')]),
                     expected_tree(filename, cls), 'the calls')
        if not lenient:
            expect_equal(sorted(x[0] or '' for x in nodes), ['', 'f'],
                         'the functions called')
    elif cls is SamplingProfiler and not lenient:
        names_within(nodes, {None: {}, 'f': {'g': {}}})
        if profiler == 'sampling-tracing':
            expect_equal(sorted(x[0] or '' for x in nodes), ['', 'f'],
                         'the functions sampled')
    if output != 'dump':
        expect_equal(title, os.path.basename(filename), 'the title')


def check_program(r, seen, filename, package, argv, runs=1):
    expect_equal(len(seen), runs, 'runs of the program')
    for args, name, file, pkg, names in seen:
        expect(same_file(args[0], filename), 'argv[0] is %r', args[0])
        expect_equal(args[1:], argv, 'the arguments')
        expect_equal(name, '__main__', '__name__')
        if filename == '<string>':
            expect(file is None, '__file__ of a command: %r', file)
        else:
            expect(same_file(file, filename), '__file__ is %r', file)
        expect_equal(pkg, package, '__package__')
        expect_equal(names, [], 'names of another program')


def profile_cases(ctx):
    ends = sorted(ENDS)
    for kind in SOURCES:
        for profiler in sorted(PROFILERS):
            for end in ends:
                for depth in range(3):
                    outputs = OUTPUTS
                    if ctx.quick:
                        k = (SOURCES.index(kind) + ends.index(end) + depth)
                        outputs = [OUTPUTS[k % 4], OUTPUTS[(k + 2) % 4]]
                        if end == 'SIGINT' and \
                                profiler not in ('tracing', 'sampling'):
                            continue
                    for output in outputs:
                        yield ['profile', kind, profiler, end, depth, output]


# -- arguments

#: command lines; S is the source, and the arguments of the program.
ARGUMENTS = [
    (['S'], []),
    (['S', 'a'], ['a']),
    (['S', 'a', 'b', 'a'], ['a', 'b', 'a']),
    (['S', '--'], []),
    (['S', '--', '-a'], ['-a']),
    (['S', '--', '--dump', 'x'], ['--dump', 'x']),
    (['S', '--', '-S', '-T', '-m', '-c'], ['-S', '-T', '-m', '-c']),
    (['S', '--', '--', '--'], ['--', '--']),
    (['S', 'a', '--', '--b=c'], ['a', '--b=c']),
    (['-S', 'S', 'a'], ['a']),
    (['S', '-S', 'a'], ['a']),
    (['S', 'a', '-S', 'b'], ['a', 'b']),
    (['--mono', 'S', 'a', '--timer', 'thread', 'b'], ['a', 'b']),
    (['S', '', ' ', 'a b'], ['', ' ', 'a b']),
    (['S', '--', '--help', '--version'], ['--help', '--version']),
    (['S', u'\xe9', u'\uac00'], [u'\xe9', u'\uac00']),
]


def argument_case(scratch, kind, command, index):
    tokens, argv = ARGUMENTS[index]
    sys.mc_seen = seen = []
    chooser, filename, package = source(scratch, kind, program('normal', 0))
    args = [command] if command else []
    for token in tokens:
        args += chooser if token == 'S' else [token]
    r = invoke(args)
    expect(not r.rejected, '%r: %r', args, r.exc)
    check_program(r, seen, filename, package, argv)
    expect_equal(r.argv, seen[0][0], 'sys.argv afterwards')
    hooks(r)


def argument_cases():
    for kind in SOURCES:
        for command in ('profile', None):
            for index in range(len(ARGUMENTS)):
                if command is None and \
                        ARGUMENTS[index][0][0] in ('--mono', '-S') and \
                        kind in ():
                    continue
                yield ['argument', kind, command, index]


REFUSED = [
    [], ['--'], ['-S'], ['missing.py'], ['-m', 'missing.module'],
    ['-m', 'prog', '-c', 'pass'], ['-c', 'pass', '-m', 'json.tool'],
    ['-m'], ['-c'], ['--dump'], ['--nothing', 'prog.py'],
    ['--mono=1', 'prog.py'],
]


def refused_case(scratch, args):
    write('prog.py', HEADER)
    sys.mc_seen = seen = []
    r = invoke(['profile'] + args)
    expect(isinstance(r.exc, click.UsageError), '%r: %r', args, r.exc)
    expect_equal((seen, r.loops, r.dumps), ([], [], []), 'runs')
    hooks(r)


# -- the text of programs

TEXTS = {
    'empty': b'',
    'comment': b'# nothing',
    'docstring': b'"""Documented."""\nassert __doc__ == "Documented."\n',
    'no docstring': b'assert __doc__ is None\n',
    'coding': b'# -*- coding: latin-1 -*-\nassert u"\xe9" == u"\\xe9"\n',
    'utf-8': b'assert u"\xc3\xa9" == u"\\xe9"\n',
    'bom': b'\xef\xbb\xbfx = 1\nassert x\n',
    'crlf': b'if 1:\r\n  x = 1\r\nassert x\r\n',
    'future': b'from __future__ import division\nassert 1 / 2 == 0.5\n',
    'main': b'done = []\nif __name__ == "__main__":\n  done.append(1)\n'
            b'assert done\n',
    'globals': b'x = 1\ndef f():\n  return x\nassert f() == 1\n'
               b'assert [f() for i in range(2)] == [1, 1]\n'
               b'assert globals()["x"] == 1\n',
    'no newline': b'if 1:\n  x = 1',
}


def text_case(scratch, kind, name, output):
    text = TEXTS[name]
    if kind == 'command':
        if b'coding' in text or text[:1] == b'\xef':
            return
        text = text.decode('utf-8')
    if kind == 'package' and name == 'no docstring':
        # a module copies the documentation of the main program.
        return
    if kind in ('module', 'submodule') and name == 'no docstring':
        return
    chooser, filename, package = source(scratch, kind, text)
    r, cls, stats, title = run_command(['profile'] + chooser, output)
    expect_equal(r.err, '', 'standard error of %r' % name)


# -- timeit

#: statements: how often f and g are called.
STATEMENTS = {
    'pass': (0, 0), 'f()': (1, 0), 'f(); g()': (1, 1), 'f()\ng()': (1, 1),
    'f()\ng()\nf()\n': (2, 1), 'x = f(); f()': (2, 0),
    'if 1: f()': (1, 0), 'for i in range(2): f()': (2, 0),
    'for i in range(2):\n  f()\n  g()': (2, 2),
    'try:\n  f()\nfinally:\n  g()': (1, 1),
    'while 1:\n  f()\n  break': (1, 0), '# nothing\nf()': (1, 0),
}
SETUPS = {
    'plain': '',
    'lines': 'x = 1\ny = 2\n',
}
COSTS = [.25, .03125, .0078125, .0009765625, .01953125, .2, .0005]


def timeit_case(scratch, stmt, number, cost, setup, profiler, output):
    calls = sys.mc_calls = {'setup': 0, 'f': 0, 'g': 0}
    clock = env.VirtualClock()
    text = ('import sys\nsys.mc_calls["setup"] += 1\n'
            'def f():\n  sys.mc_tick(); sys.mc_calls["f"] += 1\n'
            'def g():\n  sys.mc_calls["g"] += 1\n' + SETUPS[setup])

    def tick():
        clock.wall += cost
    sys.mc_tick = tick
    args = ['timeit'] + PROFILERS[profiler] + ['-s', text]
    if number is not None:
        args += ['-n', str(number)]
    args.append(stmt)
    targets = clock.targets()
    if profiler == 'sampling':
        targets = {'time.time': targets['time.time']}
    with env.patched(targets):
        r, cls, stats, title = run_command(args, output)
    expect_equal(r.err, '', 'standard error')
    f, g = STATEMENTS[stmt]
    if number is None:
        # 10, 100, ... until it takes 0.2 seconds.
        total = 0
        number = 10
        while True:
            total += number
            start = clock_sum(cost, f * number)
            if start >= .2 or number >= 10 ** 9:
                break
            number *= 10
        total += number
    else:
        total = number
    expect_equal(calls, {'setup': 1, 'f': f * total, 'g': g * total},
                 'executions')
    nodes = dict((n, (h, c)) for n, p, h, c in tree(stats))
    if cls is TracingProfiler:
        expect_equal(nodes.get('f', (0,))[0], f * number, 'profiled calls')
        expect_equal(nodes.get('g', (0,))[0], g * number, 'profiled calls')
        if f:
            expect_equal([(x[0], x[2]) for x in nodes['f'][1]],
                         [('tick', f * number)], 'calls of the statement')
        expect_equal(sorted(n or '' for n in nodes),
                     sorted([''] + ['f'] * bool(f) + ['g'] * bool(g)),
                     'what is profiled')
    else:
        expect_equal(set(nodes) - set([None, 'f', 'g']), set(),
                     'what is sampled')


def clock_sum(cost, n):
    """What the clock shows after n steps."""
    start = t = env.VirtualClock().wall
    for __ in range(n):
        t += cost
    return t - start


def timeit_cases(ctx):
    for stmt in sorted(STATEMENTS):
        for number in (1, 2, 3, 7):
            for setup in sorted(SETUPS):
                for profiler in ('tracing', 'thread', 'sampling',
                                 'sampling-tracing'):
                    for output in ('dump', 'view'):
                        yield ['timeit', stmt, number, .25, setup, profiler,
                               output]
    for stmt in sorted(STATEMENTS):
        if not STATEMENTS[stmt][0]:
            # it would take until the real clock tells.
            continue
        for cost in COSTS:
            if ctx.quick and cost < .0009 and stmt != 'f()':
                continue
            for profiler in ('tracing', 'sampling'):
                yield ['timeit', stmt, None, cost, 'plain', profiler, 'dump']


# -- conformance with direct runs

DIRECT = '''\
import json, sys
print(json.dumps([sys.argv[1:], __name__, globals().get('__file__'),
                  __package__, __doc__ if %r else None]))
'''


def direct_case(scratch, kind, argv):
    """The interpreter runs the program with the same names."""
    text = DIRECT % (kind not in ('module', 'package', 'submodule'))
    chooser, filename, package = source(scratch, kind, text)
    out = subprocess.check_output(
        [sys.executable, '-W', 'ignore'] + chooser + argv,
        env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
    want = json.loads(out.decode('utf-8').splitlines()[-1])
    r = invoke(['profile'] + chooser + ['--'] + argv)
    expect(not r.rejected, '%r', r.exc)
    expect_equal(r.err, '', 'standard error')
    got = json.loads(r.out.splitlines()[0])
    for x in (want, got):
        if x[2] is not None:
            x[2] = os.path.realpath(x[2])
    expect_equal(got, want, 'the names of a program run by -m'
                 if '-m' in chooser else 'the names of the program')


def direct_cases():
    for kind in SOURCES:
        for argv in ([], ['a', '-b', '--c=d']):
            yield ['direct', kind, argv]


FAMILIES = {'profile': profile_case, 'argument': argument_case,
            'refused': refused_case, 'text': text_case,
            'timeit': timeit_case, 'direct': direct_case}


def cases(ctx):
    out = list(profile_cases(ctx))
    out += argument_cases()
    out += [['refused', a] for a in REFUSED]
    out += [['text', k, n, o] for k in SOURCES for n in sorted(TEXTS)
            for o in ('dump', 'view')]
    out += timeit_cases(ctx)
    out += direct_cases()
    return out


def one(scratch, case):
    os.chdir(scratch.path)
    try:
        FAMILIES[case[0]](scratch, *case[1:])
    finally:
        os.chdir(scratch.path)
        cleanup(scratch)


def run(ctx):
    def work(ctx, shard, n):
        with Scratch() as scratch:
            for case in cases(ctx)[shard::n]:
                ctx.step()
                ctx.state(repr(case))
                ctx.case(case, one, scratch, case)
                ctx.outcome(case[0])
    ctx.shards(work)


def replay(ctx, case):
    with Scratch() as scratch:
        ctx.case(case, one, scratch, case)
