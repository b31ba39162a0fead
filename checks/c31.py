# -*- coding: utf-8 -*-
"""C31: profiling changes nothing a program sees and keeps nothing alive."""
from __future__ import absolute_import

import gc
import itertools
import signal
import sys
import threading
import weakref

import greenlet

from mc import trees
from mc.core import expect, expect_equal

from profiling.sampling import SamplingProfiler
from profiling.sampling.samplers import ItimerSampler, TracingSampler
from profiling.tracing import TracingProfiler
from profiling.tracing.timers import GreenletTimer, ThreadTimer, Timer

INFO = {
    'technique': 'bounded exhaustive enumeration of programs, executed for '
                 'real with and without each kind of session; what the '
                 'program observes is compared, and what stays alive',
    'bounds': 'all programs of up to 3 (quick) / 4 (thorough) nested or '
              'successive statements of 21 kinds (calls, recursion, '
              'exceptions, try, finally, with, generators which are '
              'exhausted, closed or thrown into, coroutines, callbacks of C '
              'functions, classes, threads, greenlets, signals, the start or '
              'stop of the session), in 8 kinds of sessions: 3 timers, events '
              'sampled, signals sampled by the program and at every line, and '
              'filtered stacks (quick: 3 statements in 2 to 4 kinds of '
              'sessions, but those of 8 kinds in all)',
    'assumptions': ['the program does not look for profilers (profile '
                    'functions, signal handlers, times) and does not exhaust '
                    'the stack'],
}

FILE = '<program>'

#: What contains statements.
INNER = {
    'call': '''
def f{k}():
    t = token({k})
{body}
    return {k}
log('called', f{k}())
''',
    'rec': '''
def f{k}(n):
    t = token({k})
    if n:
        f{k}(n - 1)
{body}
    return n
log('called', f{k}(2))
''',
    'try': '''
try:
{body}
except Exception as e{k}:
    log('caught', describe(e{k}))
log('after')
''',
    'finally': '''
try:
{body}
finally:
    log('finally', helper({k}), sys.exc_info()[0])
''',
    'with': '''
with Manager({k}) as m{k}:
    log(m{k})
{body}
''',
    'gen': '''
def g{k}():
    t = token({k})
    x = yield 'a'
    log('sent', x)
{body}
    yield 'b'
    return {k}
i{k} = g{k}()
log(next(i{k}), i{k}.send({k}))
try:
    log(next(i{k}))
except StopIteration as e{k}:
    log('stopped', e{k}.value)
''',
    'close': '''
def g{k}():
    t = token({k})
    try:
        yield 'a'
    finally:
        log('closing', sys.exc_info()[0])
{body2}
i{k} = g{k}()
log(next(i{k}))
i{k}.close()
log(list(i{k}))
''',
    'throw': '''
def g{k}():
    t = token({k})
    try:
        yield 'a'
    except KeyError as e{k}:
        log('thrown', describe(e{k}))
{body2}
        yield 'b'
i{k} = g{k}()
log(next(i{k}))
log(i{k}.throw(KeyError({k})))
''',
    'coro': '''
async def a{k}():
    t = token({k})
    x = await Waiting({k})
    log('awaited', x)
{body}
    return {k}
i{k} = a{k}()
log(i{k}.send(None))
try:
    i{k}.send('b')
except StopIteration as e{k}:
    log('done', e{k}.value)
''',
    'key': '''
def f{k}(x):
    t = token(({k}, x))
{body}
    return -x
log(sorted([1, 2], key=lambda x: (f{k}(x) or 0)))
''',
    'cls': '''
class X{k}(object):
    def method(self):
        return {k}
{body}
log(X{k}().method(), sorted(n for n in vars(X{k}) if n[:2] != '__'))
''',
    'thread': '''
def f{k}():
    t = token({k})
    try:
{body2}
    except BaseException as e:
        log('in thread', describe(e))
start(f{k})
log('joined')
''',
    'glet': '''
def f{k}(x):
    t = token({k})
    log('in greenlet', x)
{body}
    y = greenlet.getcurrent().parent.switch(x + 1)
    return y + 1
l{k} = greenlet.greenlet(f{k})
log(l{k}.switch(1), bool(l{k}), l{k}.dead)
log(l{k}.switch(7), bool(l{k}), l{k}.dead)
''',
    'gthrow': '''
def f{k}(x):
    t = token({k})
    try:
        greenlet.getcurrent().parent.switch(x + 1)
    except KeyError as e:
        log('in greenlet', describe(e))
{body2}
    return {k}
l{k} = greenlet.greenlet(f{k})
log(l{k}.switch(1), bool(l{k}), l{k}.dead)
log(l{k}.throw(KeyError({k})), bool(l{k}), l{k}.dead)
''',
}
LEAF = {
    'raise': 'raise ValueError({k})',
    'exit': 'raise SystemExit({k})',
    'info': 'log(sys.exc_info()[:2], sorted(locals()), stack())',
    'cfail': '''
try:
    int('x')
except ValueError as e{k}:
    log(describe(e{k}))
''',
    'ret': 'return "early"',
    'sig': 'signal.raise_signal(signal.SIGPROF)',
    'tog': 'toggle()',
}
#: of fewer kinds, there can be more statements.
FEW = (('call', 'try', 'gen', 'finally', 'glet'), ('raise', 'tog', 'ret'))


def indented(text, by=4):
    return ''.join(' ' * by + line + '\n'
                   for line in text.strip('\n').split('\n'))


def emit(forest, counter):
    """The source of statements."""
    out = []
    for kind, kids in forest:
        k = next(counter)
        if kind in LEAF:
            out.append(LEAF[kind].format(k=k).strip('\n'))
        else:
            body = emit(kids, counter) or 'pass'
            out.append(INNER[kind].format(
                k=k, body=indented(body).rstrip('\n'),
                body2=indented(body, 8).rstrip('\n')).strip('\n'))
    return '\n'.join(out)


def compiled(forest):
    source = ('def main():\n' + indented(emit(forest, itertools.count()) or
                                         'pass') + '    return "late"\n')
    try:
        return compile(source, FILE, 'exec')
    except SyntaxError:
        # `return` in a class.
        return None


def labelled(shape, inner, leaf):
    """All ways to label an ordered forest."""
    def one(tree):
        kids = [one(t) for t in tree]
        labels = list(inner) + (list(leaf) if not tree else [])
        return [(label, ks) for label in labels
                for ks in itertools.product(*kids)]
    return itertools.product(*[one(t) for t in shape])


class Token(object):

    def __init__(self, k):
        self.k = k


class Waiting(object):

    def __init__(self, k):
        self.k = k

    def __await__(self):
        return (yield self.k)


def describe(exc):
    """What can be told of an exception."""
    frames = []
    tb = exc.__traceback__
    while tb is not None:
        code = tb.tb_frame.f_code
        if code.co_filename == FILE:
            frames.append((code.co_name, tb.tb_lineno))
        tb = tb.tb_next
    chain = []
    other = exc.__context__
    while other is not None:
        chain.append((type(other).__name__, other.args))
        other = other.__context__
    return (type(exc).__name__, exc.args, frames, chain,
            repr(exc.__cause__))


def stack():
    frame = sys._getframe(1)
    out = []
    while frame is not None:
        if frame.f_code.co_filename == FILE:
            out.append((frame.f_code.co_name, frame.f_lineno))
        frame = frame.f_back
    return out


def start(f):
    t = threading.Thread(target=f)
    t.start()
    t.join()


def execute(code, session):
    """Runs a program.  Returns what it observed and references to what it
    used.
    """
    seen, tokens = [], []

    def log(*args):
        seen.append(repr(args))

    def token(k):
        t = Token(k)
        tokens.append(weakref.ref(t))
        return t

    def helper(x):
        return [y for y in (x, x + 1)]

    class Manager(object):

        def __init__(self, k):
            self.k = k

        def __enter__(self):
            return self.k

        def __exit__(self, cls, exc, tb):
            log('exit', cls, exc and describe(exc))
            return self.k % 2 == 1

    thread, main_greenlet = threading.get_ident(), greenlet.getcurrent()

    def toggle():
        if (thread == threading.get_ident() and
                greenlet.getcurrent() is main_greenlet):
            session.toggle()
    ns = {'log': log, 'token': token, 'helper': helper, 'Manager': Manager,
          'toggle': toggle, 'describe': describe, 'stack': stack, 'sys': sys,
          'start': start, 'signal': signal, 'greenlet': greenlet,
          'Waiting': Waiting}
    exec(code, ns)
    main = ns['main']
    session.begin(sys._getframe(), main.__code__)
    try:
        log('end', main())
    except BaseException as exc:
        log('failed', describe(exc))
    finally:
        session.end()
    log(sys.exc_info())
    return seen, tokens


class NoSession(object):

    def begin(self, frame, code):
        pass

    toggle = end = lambda self: None


class Session(object):

    def __init__(self, kind):
        self.kind = kind
        self.profiler = None

    def begin(self, frame, code):
        kind = self.kind
        if kind == 'process':
            p = TracingProfiler(base_frame=frame, timer=Timer())
        elif kind == 'thread':
            p = TracingProfiler(base_code=frame.f_code, timer=ThreadTimer())
        elif kind == 'greenlet':
            p = TracingProfiler(timer=GreenletTimer())
        elif kind in ('filtered', 'filtered events'):
            filters = {'base_code': code,
                       'ignored_frames': [frame, frame.f_back],
                       'ignored_codes': [describe.__code__, stack.__code__]}
            if kind == 'filtered':
                p = TracingProfiler(**filters)
            else:
                p = SamplingProfiler(sampler=TracingSampler(0), **filters)
        elif kind == 'events':
            p = SamplingProfiler(base_frame=frame, sampler=TracingSampler(0))
        else:
            p = SamplingProfiler(sampler=ItimerSampler(1000.))
        self.profiler = p
        p.start()
        if kind == 'lines':
            sys.settrace(self.trace)

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename != FILE:
            return
        if event == 'line':
            deliver(signal.SIGPROF, frame)
        return self.trace

    def toggle(self):
        if self.profiler.is_running():
            self.profiler.stop()
        else:
            self.profiler.start()

    def end(self):
        if self.kind == 'lines':
            sys.settrace(None)
        if self.profiler.is_running():
            self.profiler.stop()


def deliver(signum, frame):
    """As a signal which interrupts a frame."""
    handler = signal.getsignal(signum)
    if callable(handler):
        handler(signum, frame)


KINDS = ['process', 'thread', 'greenlet', 'filtered', 'events',
         'filtered events', 'signals', 'lines']


def compare(forest, code, kind, want, kept):
    session = Session(kind)
    seen, tokens = execute(code, session)
    expect_equal(seen, want, 'what the program observes')
    expect(sys.getprofile() is None, 'a profile function is left')
    # the program, which the interpreter may cache, refers to the session.
    profiler, session.profiler = session.profiler, None
    stats = profiler.result()[0]
    if kind not in ('signals', 'filtered', 'filtered events'):
        expect(len(stats.children) > 0, 'nothing was recorded')
    kept.append((forest, kind, profiler, tokens))


def alive(tokens):
    return sorted(repr(t.k) for t in [r() for r in tokens] if t is not None)


def collect(ctx, kept, plain):
    """Nothing of the programs is alive, though the profilers are; then the
    profilers are not either.
    """
    if not kept:
        return
    gc.collect()
    gc.collect()
    for forest, kind, profiler, tokens in kept:
        left = alive(tokens)
        if left:
            ctx.case([kind, forest], released, left,
                     alive(plain[forest]))
    refs = [(forest, kind, weakref.ref(profiler))
            for forest, kind, profiler, tokens in kept]
    del kept[:]
    forest = kind = profiler = tokens = None
    gc.collect()
    gc.collect()
    for forest, kind, ref in refs:
        if ref() is not None:
            ctx.case([kind, forest], dropped, ref)


def released(left, plain):
    expect_equal(left, plain, 'alive after the program')


def dropped(ref):
    expect(ref() is None, 'the profiler is alive after it was dropped')


def kinds_of(ctx, forest):
    if not ctx.quick or size(forest) < 3 or within(forest, FEW[0] + FEW[1]):
        kinds = KINDS
    else:
        kinds = ['process', 'lines', 'signals']
        if contains(forest, 'glet') or contains(forest, 'gthrow'):
            kinds.append('greenlet')
    return [kind for kind in kinds
            if kind != 'signals' or contains(forest, 'sig')]


def check_programs(ctx, programs, kinds=None):
    kept, plain = [], {}
    signal.signal(signal.SIGPROF, signal.SIG_IGN)
    for forest in programs:
        code = compiled(forest)
        if code is None:
            continue
        want, plain[forest] = execute(code, NoSession())
        ctx.state(want)
        for kind in kinds or kinds_of(ctx, forest):
            ctx.case([kind, forest], compare, forest, code, kind, want, kept)
            ctx.step(len(want))
            ctx.outcome(kind)
        if len(kept) > 2000:
            collect(ctx, kept, plain)
            plain.clear()
    collect(ctx, kept, plain)


def contains(forest, kind):
    return any(k == kind or contains(kids, kind) for k, kids in forest)


def size(forest):
    return sum(1 + size(kids) for k, kids in forest)


def within(forest, labels):
    return all(k in labels and within(kids, labels) for k, kids in forest)


def programs(ctx):
    inner, leaf = sorted(INNER), sorted(LEAF)
    n = 3 if ctx.quick else 4
    for size in range(n + 1):
        for shape in trees.forests(size):
            for forest in labelled(shape, inner, leaf):
                yield forest


def run(ctx):
    def work(ctx, shard, n):
        check_programs(ctx, itertools.islice(programs(ctx), shard, None, n))
    ctx.shards(work)


def tuplify(x):
    return tuple(tuplify(y) for y in x) if isinstance(x, list) else x


def replay(ctx, case):
    kind, forest = case
    check_programs(ctx, [tuplify(forest)], [kind])
