# -*- coding: utf-8 -*-
"""C28: live and remote commands connect script, server and viewer."""
from __future__ import absolute_import

import errno
import itertools
import json
import os
import select
import signal
import socket
import sys
import threading
import time
import traceback

from mc import cli
from mc.cli import invoke, patches, Record, Scratch
from mc.core import (Chooser, expect, expect_equal, explore, HarnessError,
                     own_address)

from profiling.remote import recv_msg, PROFILER, RESULT, WELCOME
from profiling.remote.client import ProfilingClient
from profiling.sampling import SamplingProfiler
from profiling.tracing import TracingProfiler
from profiling.viewer import StatisticsViewer

INFO = {
    'technique': 'stateless exploration of the real parent process against a '
                 'model of its child (all orders of their ends), of the real '
                 'child process and of the remote command in-process, and '
                 'replays of every order with real processes and sockets',
    'bounds': 'parent: child which ends by 6 statuses at each of 5 points or '
              'never, at once or late after SIGTERM, 3 outputs, 3 ends of the '
              'viewer; child: 8 ends of the script x 3 profilers x 3 spawn '
              'modes; remote: 8 ends x 3 spawn modes x verbosity; real '
              'processes: 9 ends of the script x 3 ends of the viewer x both '
              'orders, profilers, and 5 ends of a remote script with a '
              'connected client',
    'assumptions': ['the exit status when a signal kills the child '
                    'isn\'t specified'],
}

PID = 54321


# -- the parent process against a model child

STATUSES = [('exit', 0), ('exit', 3), ('exit', 255), ('exit', 1),
            ('kill', signal.SIGSEGV), ('kill', signal.SIGKILL)]
STDERR = ['', 'oops\n', u'two\nlines \xe9']


class Child(object):
    """A model of the child process."""

    def __init__(self, chooser):
        self.chooser = chooser
        self.fd = None
        self.status = None  # as of waitpid()
        self.reaped = False
        self.signals = []
        self.forked = 0
        self.when = chooser(6, 'when the child ends')
        self.how = STATUSES[chooser(len(STATUSES), 'how')] \
            if self.when != 5 else None
        self.text = STDERR[chooser(len(STDERR), 'stderr')]
        self.late = chooser(2, 'dies late') if self.when >= 3 else 0
        self.thread = None
        self.pipes = []
        self.real_pipe = os.pipe
        self.mismatch = None

    def pipe(self):
        fds = self.real_pipe()
        self.pipes.append(fds)
        return fds

    def fork(self):
        self.forked += 1
        (r, w), = self.pipes
        self.fd = os.dup(w)
        os.write(self.fd, self.text.encode('utf-8'))
        return PID

    def at(self, point):
        if self.when == point and self.status is None:
            self.end(*self.how)

    def end(self, kind, code):
        self.status = code << 8 if kind == 'exit' else int(code)
        os.close(self.fd)
        self.fd = None

    def kill(self, pid, signum):
        if pid != PID or self.reaped:
            self.mismatch = 'sends %r to process %r%s' % (
                signum, pid, ' which is gone' if self.reaped else '')
            raise HarnessError(self.mismatch)
        self.signals.append(signal.Signals(signum))
        if self.status is not None:
            return
        if signum == signal.SIGINT:
            # it may end by itself.
            self.at(3)
        elif signum in (signal.SIGTERM, signal.SIGKILL):
            # it may handle the signal.
            end = self.how if self.when == 4 else ('kill', int(signum))
            if self.late:
                self.thread = threading.Timer(.02, self.end, end)
                self.thread.start()
            else:
                self.end(*end)
        else:
            self.mismatch = 'sends %r' % signum

    def waitpid(self, pid, options):
        if pid not in (PID, -1):
            raise HarnessError('waits for %r' % pid)
        self.at(2)
        if self.reaped:
            raise OSError(errno.ECHILD, 'No child processes')
        if self.status is None:
            if options & os.WNOHANG:
                return 0, 0
            if self.thread is None:
                raise HarnessError('would wait forever for the child')
            self.thread.join()
        self.reaped = True
        return PID, self.status


def parent_case(ctx, chooser):
    child = Child(chooser)
    end = chooser.pick(['quit', 'KeyboardInterrupt', 'error'], 'viewer')
    loops = []

    class Unexpected(Exception):
        pass
    error = Unexpected('unexpected')

    def on_loop(loop):
        loops.append(loop)
        expect_equal(child.forked, 1, 'processes forked')
        child.at(0)
        child.at(1)
        if end == 'KeyboardInterrupt':
            raise KeyboardInterrupt
        elif end == 'error':
            raise error
    with open('prog.py', 'w') as f:
        f.write('raise AssertionError("the parent runs the script")\n')
    before = set(os.listdir('/proc/self/fd'))
    threads = set(threading.enumerate())
    r = Record()
    try:
        invoke(['live-profile', 'prog.py'], on_loop=on_loop, record=r,
               fork=child.fork,
               extra=[(os, 'waitpid', child.waitpid), (os, 'kill', child.kill),
                      (os, 'pipe', child.pipe)], keep_fds=True)
    finally:
        if child.thread:
            child.thread.join()
        if child.fd is not None:
            os.close(child.fd)
        for thread in set(threading.enumerate()) - threads:
            thread.join(20)
        cli.close_new_fds(before)
    if isinstance(r.exc, HarnessError):
        expect(False, '%s', r.exc)
    expect(child.mismatch is None, '%s', child.mismatch)
    expect_equal(len(loops), 1, 'viewers run')
    expect_equal(len(r.clients), 1, 'clients')
    expect(r.clients[0].viewer is loops[0].viewer, 'the viewer of the client')
    expect_equal(r.clients[0].title, 'prog.py', 'the title')
    if end == 'error':
        expect(r.exc is error, 'the error of the viewer is lost: %r', r.exc)
        expect_equal(child.signals, [signal.SIGTERM], 'signals')
        return
    expect(isinstance(r.exc, SystemExit), 'ends by %r', r.exc)
    if child.status is not None and not child.status & 0xff:
        expect_equal(r.exc.code, child.status >> 8, 'the exit code')
    expect_equal(r.err, child.text, 'standard error')
    want = []
    if end == 'KeyboardInterrupt':
        want.append(signal.SIGINT)
    ended = child.when in (0, 1, 2) or (child.when == 3 and
                                        end == 'KeyboardInterrupt')
    if not ended:
        want.append(signal.SIGTERM)
    expect_equal(child.signals, want, 'signals to the child')
    expect(child.reaped, 'the child is left')
    expect_equal(r.left_fds, [], 'open files left')
    expect_equal(r.out, '', 'standard output')


# -- the child process

SCRIPT_ENDS = {
    'normal': ('pass', None), 'exit': ('import sys; sys.exit()', SystemExit),
    'exit3': ('import sys; sys.exit(3)', SystemExit),
    'error': ('raise ValueError("boom")', ValueError),
    'interrupt': ('raise KeyboardInterrupt', KeyboardInterrupt),
    'system exit': ('raise SystemExit("bye")', SystemExit),
    'name': ('undefined_name', NameError),
    'generator': ('raise GeneratorExit', GeneratorExit),
}


def wait_for(cond):
    limit = time.monotonic() + 10
    while not cond() and time.monotonic() < limit:
        time.sleep(.001)


def child_case(scratch, end, profiler_args, mode):
    with open('prog.py', 'w') as f:
        f.write('import sys\nsys.mc_ran(globals())\n' +
                SCRIPT_ENDS[end][0] + '\n')
    dups, pairs = [], []
    ran = []
    before = set(os.listdir('/proc/self/fd'))
    real_pair, real_pipe = socket.socketpair, os.pipe

    def ran_here(globals_):
        if mode == 'threading':
            # the server starts meanwhile.
            wait_for(lambda: r.served)
        ran.append((globals_['__name__'], sys.argv[:], list(dups)))
    sys.mc_ran = ran_here
    pipes = []

    def socketpair(*args):
        pair = real_pair(*args)
        pairs.append(pair)
        return pair

    def pipe():
        fds = real_pipe()
        pipes.append(fds)
        return fds

    def dup2(src, dst, *args):
        name = 'other'
        for r, w in pipes:
            if src == w:
                name = 'pipe'
        try:
            if os.readlink('/proc/self/fd/%d' % src) == '/dev/null':
                name = 'null'
        except OSError:
            name = 'closed'
        dups.append((name, dst))
        return dst
    stdin = sys.stdin
    holders = []
    r = Record()
    try:
        sys.stdin = cli.Capture(0)

        def socketpair_kept(*args):
            pair = socketpair(*args)
            holders.extend(s.dup() for s in pair)
            return pair
        extra = [(os, 'dup2', dup2), (socket, 'socketpair', socketpair_kept),
                 (os, 'pipe', pipe)]
        invoke(['live-profile'] + profiler_args + ['--spawn', mode, 'prog.py',
                                                   'a', 'b'],
               fork=lambda: 0, extra=extra, keep_fds=True, record=r)
        writers = [fd for fd in cli.pipe_ends(pipes[0]) if fd is not None]
        # who is at the other end: the server's one is shut down.
        expect_equal(len(pairs), 1, 'pairs of sockets')
        want = SCRIPT_ENDS[end][1]
        if want is None:
            expect(r.exc is None, 'ends by %r', r.exc)
        else:
            expect(isinstance(r.exc, want) or
                   (end == 'interrupt' and r.exc is not None),
                   'the script ends by %s, the process by %r', want.__name__,
                   r.exc)
            if want is SystemExit:
                code = {'exit': None, 'exit3': 3, 'system exit': 'bye'}[end]
                expect_equal(r.exc.code, code, 'the exit code')
        expect_equal(len(ran), 1, 'runs of the script')
        name, argv, dups_then = ran[0]
        expect_equal((name, argv), ('__main__', ['prog.py', 'a', 'b']),
                     'names of the script')
        expect_equal(sorted(dups_then, key=lambda x: x[1]),
                     [('null', 0), ('null', 1), ('pipe', 2)],
                     'standard streams of the script')
        expect_equal(len(r.served), 1, 'servers')
        (kind, server, where), = r.served
        expect_equal(kind, 'connected', 'what the server does')
        expect_equal(where, {'threading': 'thread', 'gevent': 'gevent',
                             'eventlet': 'main'}[mode], 'the context')
        expect(len(server.clients) <= 1, 'clients: %r', server.clients)
        mine = [s for pair in pairs for s in pair if s in server.clients]
        sock = r.connected[0]
        expect(sock in pairs[0], 'the server serves %r', sock)
        expect_equal(writers, [], 'write ends of the pipe left open')
        peer = holders[1 - pairs[0].index(sock)]
        peer.settimeout(5)
        expect_equal(peer.recv(1), b'', 'what the viewer receives at last')
        cls = SamplingProfiler if '-S' in profiler_args else TracingProfiler
        expect_equal(type(server.profiler.profiler), cls, 'the profiler')
        expect(signal.SIGUSR2 in r.handlers, 'no handler of the signal')
        expect(server.listener is None, 'a listener')
    finally:
        sys.stdin = stdin
        for s in holders:
            s.close()
        for pair in pairs:
            for s in pair:
                s.close()
        cli.close_new_fds(before)


# -- the remote command

def remote_case(scratch, end, mode, verbose, command):
    with open('prog.py', 'w') as f:
        f.write('import sys\nsys.mc_ran(globals())\n' +
                SCRIPT_ENDS[end][0] + '\n')
    r = Record()
    ran = []

    def ran_here(globals_):
        if mode == 'threading':
            # the server starts meanwhile.
            wait_for(lambda: r.served)
        handler = signal.getsignal(signal.SIGUSR2)
        ran.append((globals_['__name__'], sys.argv[:],
                    [(s.bound, s.listening) for s in r.sockets],
                    callable(handler)))
    sys.mc_ran = ran_here
    args = [command, 'prog.py', '--spawn', mode, '--bind', '127.0.0.1:7'] + \
        (['-v'] if verbose else []) + ['a', 'b']
    invoke(args, record=r)
    want = SCRIPT_ENDS[end][1]
    if want in (None, KeyboardInterrupt):
        expect(r.exc is None, 'ends by %r', r.exc)
    else:
        expect(isinstance(r.exc, want), 'the script ends by %s, the command '
               'by %r', want.__name__, r.exc)
    expect_equal(ran, [('__main__', ['prog.py', 'a', 'b'],
                        [(('127.0.0.1', 7), True)], True)],
                 'names, listener and handler while the script runs')
    expect_equal(len(r.served), 1, 'servers')
    kind, server, where = r.served[0]
    expect_equal((kind, where), ('forever', {
        'threading': 'thread', 'gevent': 'gevent', 'eventlet': 'main'}[mode]),
        'what the server does')
    expect(server.listener is r.sockets[0], 'other listener')
    expect_equal(bool(r.out), verbose, 'output %r' % r.out)
    if verbose:
        expect('127.0.0.1:7' in r.out, 'the endpoint is not told: %r', r.out)
    expect_equal(r.err, '', 'standard error')


# -- real processes

REAL_ENDS = {
    # the end of the script: exit code and what it writes.
    'normal': ('pass', 0, ''),
    'exit3': ('sys.exit(3)', 3, ''),
    'text': ('sys.exit("bye")', 1, 'bye'),
    'error': ('raise ValueError("boom")', 1, 'ValueError: boom'),
    '_exit': ('os._exit(5)', 5, ''),
    'killed': ('os.kill(os.getpid(), signal.SIGKILL)', None, ''),
    'fork': ('pid = os.fork()\nif not pid: os._exit(0)\nos.waitpid(pid, 0)\n'
             'sys.exit(7)', 7, ''),
    'chatty': ('sys.stderr.write("a long story\\n" * 30000)\nsys.exit(9)', 9,
               'a long story\n' * 30000),
    'binary': ('os.write(2, b"\\xff\\xfe\\r\\n")\nsys.exit(6)', 6,
               u'\ufffd\ufffd\r\n'),
}
SCRIPT = '''\
import os, signal, sys, time
sys.stderr.write('E1\\n'); sys.stderr.flush()
os.write(1, b'hidden'); print('hidden'); sys.stdout.flush()
assert sys.stdin.read() == ''
%s
def working():
    return sum(range(200))
limit = time.time() + 60
while not os.path.exists('go') and time.time() < limit:
    working()
%s
'''
GRACEFUL = '''\
def handler(*args):
    sys.stderr.write('graceful\\n')
    sys.stderr.flush()
    sys.exit(4)
signal.signal(signal.SIGTERM, handler)
'''


class DriverLoop(object):
    """Drives a viewer until something happens, then ends."""

    def __init__(self, driver, viewer):
        self.driver = driver
        self.viewer = viewer
        self.event_loop = self
        self.screen = cli.FakeScreen(Record())
        self.files = {}

    def watch_file(self, fd, callback):
        self.files[fd] = callback
        return fd

    def remove_watch_file(self, fd):
        return self.files.pop(fd, None) is not None

    def alarm(self, *args):
        return object()

    def remove_alarm(self, *args):
        return True

    set_alarm_in = alarm

    def pump(self, cond, what):
        limit = time.monotonic() + 30
        while not cond():
            if time.monotonic() > limit:
                raise RuntimeError('the viewer waits for %s' % what)
            ready = select.select(list(self.files), [], [], .02)[0]
            for fd in ready:
                if fd in self.files:
                    self.files[fd]()

    def run(self):
        d = self.driver
        if d['order'] == 'now':
            pass
        else:
            self.pump(lambda: d['results'] >= 2 and
                      (d['sampling'] or 'working' in d['functions']),
                      'results')
            if d['order'] == 'script':
                with open('go', 'w'):
                    pass
                self.pump(lambda: not self.files, 'the end of the script')
                self.pump(lambda: ended(d['pid']), 'the end of the child')
        if d['end'] == 'KeyboardInterrupt':
            raise KeyboardInterrupt
        elif d['end'] == 'error':
            raise RuntimeError('unexpected')


def ended(pid):
    with open('/proc/%d/stat' % pid) as f:
        return f.read().rpartition(')')[2].split()[0] in 'ZX'


def in_process(func):
    """Runs a function in another process as the interpreter would run it."""
    pid = os.fork()
    if pid:
        return pid
    code = 70
    try:
        # whatever it signals remains among its own processes.
        os.setsid()
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.signal(signal.SIGINT, signal.default_int_handler)
        try:
            func()
            code = 0
        except SystemExit as exc:
            code = exc.code
            if code is None:
                code = 0
            elif not isinstance(code, int):
                sys.stderr.write('%s\n' % code)
                code = 1
        except BaseException:
            traceback.print_exc()
            code = 1
        sys.stdout.flush()
        sys.stderr.flush()
    finally:
        os._exit(code & 0xff)


def redirect():
    """Points the standard streams to files."""
    null = os.open(os.devnull, os.O_RDONLY)
    os.dup2(null, 0)
    for fd, name in ((1, 'stdout'), (2, 'stderr')):
        f = os.open(name, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        os.dup2(f, fd)
        os.close(f)
    os.close(null)
    sys.stdin = os.fdopen(os.dup(0), 'r')
    sys.stdin = open(0, 'r', closefd=False)
    sys.stdout = open(1, 'w', closefd=False)
    sys.stderr = open(2, 'w', closefd=False)


def read(name):
    try:
        with open(name, 'rb') as f:
            return f.read().decode('utf-8', 'replace')
    except IOError:
        return ''


def wait(pid, what):
    """Waits for a process."""
    limit = time.monotonic() + 40
    while time.monotonic() < limit:
        w, status = os.waitpid(pid, os.WNOHANG)
        if w:
            return status
        time.sleep(.005)
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    expect(False, '%s did not end', what)


def real_live_case(scratch, end, viewer_end, order, profiler_args,
                   graceful=False):
    with open('prog.py', 'w') as f:
        f.write(SCRIPT % (GRACEFUL if graceful else '', REAL_ENDS[end][0]))

    def main():
        redirect()
        driver = {'order': order, 'end': viewer_end, 'results': 0, 'pid': None,
                  'classes': [], 'functions': [],
                  'sampling': '-S' in profiler_args}
        me = os.getpid()
        real_fork = os.fork
        set_result = StatisticsViewer.set_result
        set_class = StatisticsViewer.set_profiler_class

        def fork():
            pid = real_fork()
            if pid:
                driver['pid'] = pid
            else:
                os.fork = real_fork
            return pid

        def on_result(viewer, stats, *args, **kwargs):
            driver['results'] += 1
            driver['functions'] = sorted(set(
                [s.name or '' for s in stats] + driver['functions']))
            return set_result(viewer, stats, *args, **kwargs)

        def on_class(viewer, cls):
            driver['classes'].append(cls.__name__)
            return set_class(viewer, cls)
        os.fork = fork
        StatisticsViewer.loop = lambda self, *a, **k: DriverLoop(driver, self)
        StatisticsViewer.set_result = on_result
        StatisticsViewer.set_profiler_class = on_class
        before = set(os.listdir('/proc/self/fd'))
        try:
            cli.cli.main(args=['live-profile'] + profiler_args +
                         ['--interval', '.05', 'prog.py'],
                         prog_name='profiling')
        finally:
            if os.getpid() == me:
                os.fork = real_fork
                if viewer_end == 'error' and driver['pid']:
                    limit = time.monotonic() + 10
                    while time.monotonic() < limit:
                        try:
                            if os.waitpid(driver['pid'], os.WNOHANG)[0]:
                                break
                        except OSError:
                            break
                        time.sleep(.01)
                    driver['left'] = []
                else:
                    driver['left'] = sorted(
                        os.readlink('/proc/self/fd/' + x).split(':')[0]
                        for x in set(os.listdir('/proc/self/fd')) - before
                        if os.path.islink('/proc/self/fd/' + x))
                try:
                    driver['children'] = os.waitpid(-1, os.WNOHANG)[0]
                    if driver['pid']:
                        os.kill(driver['pid'], signal.SIGKILL)
                except OSError:
                    driver['children'] = None
                with open('driver', 'w') as f:
                    json.dump(driver, f)
    status = wait(in_process(main), 'the command')
    err, out = read('stderr'), read('stdout')
    try:
        driver = json.loads(read('driver'))
    except ValueError:
        expect(False, 'no end of the command: %s', err)
    expect(driver['children'] is None, 'a child process is left')
    expect(os.WIFEXITED(status), 'the command died by %r', status)
    code = os.WEXITSTATUS(status)
    what = 'standard error:\n' + err
    expect_equal(out, '', 'standard output')
    if order != 'now':
        expect(driver['results'] >= 2, 'results: %r\n%s', driver, what)
        expect_equal(driver['classes'], [
            'SamplingProfiler' if '-S' in profiler_args else
            'TracingProfiler'], 'classes')
    if viewer_end == 'error':
        expect_equal(code, 1, 'the exit code\n%s' % what)
        expect('RuntimeError: unexpected' in err, '%s', what)
        return
    expect_equal(driver['left'], [], 'open files left')
    if order != 'now':
        expect(err.startswith('E1\n'), 'no error output of the script\n%s',
               what)
    if order == 'script':
        text, want, needle = REAL_ENDS[end]
        if want is not None:
            expect_equal(code, want, 'the exit code\n%s' % what)
        expect(needle in err, '%s', what)
        if not needle:
            expect_equal(err, 'E1\n', 'standard error')
        return
    if graceful and order != 'now':
        expect_equal((code, err), (4, 'E1\ngraceful\n'),
                     'the end of a script which handles its termination')
    elif viewer_end == 'quit' and order != 'now':
        expect_equal(err, 'E1\n', 'standard error')
    expect('profiling/remote' not in err, '%s', what)


REMOTE_ENDS = {
    'normal': ('pass', 0, ''), 'exit3': ('sys.exit(3)', 3, ''),
    'error': ('raise ValueError("boom")', 1, 'ValueError: boom'),
    'interrupt': ('raise KeyboardInterrupt', 0, ''),
    'SIGINT': ('os.kill(os.getpid(), signal.SIGINT)\ntime.sleep(5)', 0, ''),
}
REMOTE_SCRIPT = '''\
import os, signal, sys, time
def working():
    return sum(range(200))
limit = time.time() + 60
while not os.path.exists('go') and time.time() < limit:
    working()
%s
'''


def real_remote_case(scratch, end, profiler_args, clients, verbose):
    with open('prog.py', 'w') as f:
        f.write(REMOTE_SCRIPT % REMOTE_ENDS[end][0])
    host, port = own_address()

    def main():
        redirect()
        cli.cli.main(args=['remote-profile', '--bind', '%s:%d' % (host, port),
                           '-i', '.05'] + profiler_args +
                     (['-v'] if verbose else []) + ['prog.py'],
                     prog_name='profiling')
    pid = in_process(main)
    socks = []
    problem = None
    try:
        for __ in range(clients):
            limit = time.monotonic() + 20
            while True:
                sock = socket.socket()
                sock.settimeout(20)
                try:
                    sock.connect((host, port))
                except socket.error:
                    sock.close()
                    if time.monotonic() > limit:
                        expect(False, 'nobody listens')
                    time.sleep(.01)
                else:
                    break
            socks.append(sock)
            messages = []
            cls = SamplingProfiler if '-S' in profiler_args else \
                TracingProfiler
            names = set()
            while sum(m == RESULT for m, __ in messages) < 2 or \
                    cls is TracingProfiler and 'working' not in names:
                messages.append(recv_msg(sock))
                if messages[-1][0] == RESULT:
                    names.update(c.name for c in messages[-1][1][0])
                expect(len(messages) < 500, 'functions: %r', names)
            methods = [m for m, __ in messages]
            expect_equal(methods[:2] + sorted(set(methods[2:])),
                         [WELCOME, PROFILER, RESULT], 'messages')
            expect(messages[1][1] is cls, 'the profiler %r', messages[1][1])
    except BaseException as exc:
        problem = exc
    finally:
        with open('go', 'w'):
            pass
    status = wait(pid, 'the remote command')
    err = read('stderr')
    for sock in socks:
        sock.close()
    if problem is not None:
        expect(False, '%s: %s\n%s', type(problem).__name__, problem, err)
    text, code, needle = REMOTE_ENDS[end]
    expect(os.WIFEXITED(status), 'died by %r', status)
    expect_equal(os.WEXITSTATUS(status), code, 'the exit code\n%s' % err)
    if needle:
        expect(needle in err, 'standard error: %s', err)
    else:
        expect_equal(err, '', 'standard error')
    expect_equal(bool(read('stdout')), verbose, 'output')


# -- all

def cases(ctx):
    out = []
    for end in sorted(SCRIPT_ENDS):
        for args in ([], ['-S'], ['--timer=thread']):
            for mode in ('threading', 'gevent', 'eventlet'):
                out.append(['child', end, args, mode])
        for mode in ('threading', 'gevent', 'eventlet'):
            for verbose in (False, True):
                for command in ('remote', 'remote-profile'):
                    out.append(['remote', end, mode, verbose, command])
    for end in sorted(REAL_ENDS):
        for viewer_end in ('quit', 'KeyboardInterrupt', 'error'):
            for args in ([[]] if ctx.quick and end != 'exit3' else
                         [[], ['-S'], ['-S', '--sampler=tracing'],
                          ['--timer=thread']]):
                out.append(['real live', end, viewer_end, 'script', args])
    for viewer_end in ('quit', 'KeyboardInterrupt', 'error'):
        for args in ([], ['-S']):
            out.append(['real live', 'normal', viewer_end, 'viewer', args])
            out.append(['real live', 'normal', viewer_end, 'now', args])
    for args in ([], ['-S']):
        out.append(['real live', 'normal', 'quit', 'viewer', args, True])
    for end in sorted(REMOTE_ENDS):
        for args in ([], ['-S']):
            for clients in (1, 2):
                out.append(['real remote', end, args, clients, bool(args)])
    return out


FAMILIES = {'child': child_case, 'remote': remote_case,
            'real live': real_live_case, 'real remote': real_remote_case}


def one(scratch, case):
    import shutil
    try:
        FAMILIES[case[0]](scratch, *case[1:])
    finally:
        os.chdir(scratch.path)
        for name in os.listdir(scratch.path):
            path = os.path.join(scratch.path, name)
            os.unlink(path)


def run(ctx):
    def work(ctx, shard, n):
        with Scratch() as scratch:
            todo = cases(ctx)
            # the long ones first, dealt evenly.
            todo.sort(key=lambda c: not c[0].startswith('real'))
            for case in todo[shard::n]:
                ctx.step()
                ctx.state(repr(case))
                ctx.case(case, one, scratch, case)
                ctx.outcome(case[0])
            k = [0]

            def parent(chooser):
                k[0] += 1
                box = []

                def body():
                    parent_case(ctx, chooser)
                if chooser.prefix and sum(chooser.prefix) % n != shard:
                    # its choices are known, another shard runs it.
                    silent(chooser)
                    return
                ctx.step(len(chooser.prefix) + 1)
                ctx.state(('parent', chooser.prefix))
                ctx.case(['parent', list(chooser.prefix)], body)
                ctx.outcome('parent')

            def silent(chooser):
                child = Child(chooser)
                chooser(3, 'viewer')
            for chooser in explore(parent):
                pass
    ctx.shards(work)


def replay(ctx, case):
    with Scratch() as scratch:
        if case[0] == 'parent':
            ctx.case(case, parent_case, ctx, Chooser(case[1]))
        else:
            ctx.case(case, one, scratch, case)
