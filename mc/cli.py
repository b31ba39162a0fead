# -*- coding: utf-8 -*-
"""Runs the real command-line interface in-process.  What it would do to its
environment (terminal, sockets, processes, monkey patching) is recorded by
stand-ins at the seams; the profilers, samplers and timers are real.
"""
from __future__ import absolute_import

import contextlib
import gc
import importlib
import io
import os
import shutil
import signal
import socket
import sys
import tempfile
import threading
import types

import click
import gevent
import gevent.monkey
import greenlet

from mc.core import HarnessError
import profiling.__main__ as main_module
from profiling.profiler import Profiler
from profiling.remote.client import FailoverProfilingClient, ProfilingClient
from profiling.remote.select import SelectProfilingServer
from profiling.viewer import StatisticsViewer

cli = main_module.cli


@contextlib.contextmanager
def patches(*triples):
    """Replaces attributes for a while."""
    saved = []
    try:
        for obj, name, value in triples:
            saved.append((obj, name, obj.__dict__.get(name, patches)))
            setattr(obj, name, value)
        yield
    finally:
        for obj, name, value in reversed(saved):
            if value is patches:
                delattr(obj, name)
            else:
                setattr(obj, name, value)


class Scratch(object):
    """A scratch working directory."""

    def __init__(self):
        self.path = tempfile.mkdtemp(prefix='mc-cli.')
        self.content = {}
        # gevent makes its files once.
        gevent.sleep(0)
        self.cwd = os.getcwd()
        os.chdir(self.path)

    def write(self, name, content):
        """Writes a file when its content isn't so already.  None: removed."""
        if self.content.get(name) == content:
            return
        self.content[name] = content
        if content is None:
            os.unlink(os.path.join(self.path, name))
            return
        with open(os.path.join(self.path, name), 'w') as f:
            f.write(content)

    def close(self):
        os.chdir(self.cwd)
        shutil.rmtree(self.path)

    def __enter__(self):
        return self

    def __exit__(self, *exc_info):
        self.close()


class FakeScreen(object):

    def __init__(self, record):
        self.record = record

    def set_terminal_properties(self, colors=None, *args, **kwargs):
        self.record.colors.append(colors)


class FakeEventLoop(object):

    def __init__(self, record):
        self.record = record

    def watch_file(self, fd, callback):
        self.record.watched.append(fd)
        return object()

    def remove_watch_file(self, handle):
        pass

    def alarm(self, seconds, callback):
        return object()

    def remove_alarm(self, handle):
        pass


class FakeLoop(object):
    """In place of the main loop of urwid."""

    def __init__(self, record, viewer):
        self.record = record
        self.viewer = viewer
        self.screen = FakeScreen(record)
        self.event_loop = FakeEventLoop(record)

    def set_alarm_in(self, *args, **kwargs):
        return object()

    def run(self):
        self.record.loops.append(self.viewer)
        if self.record.on_loop is not None:
            self.record.on_loop(self)


class FakeSocket(object):
    """In place of a listening socket."""

    def __init__(self, record, args):
        self.record = record
        self.args = args
        self.bound = None
        self.listening = False
        record.sockets.append(self)

    def setsockopt(self, *args):
        pass

    def settimeout(self, *args):
        pass

    def setblocking(self, *args):
        pass

    def bind(self, addr):
        self.bound = addr

    def listen(self, *args):
        self.listening = True

    def getsockname(self):
        return self.bound

    def close(self):
        pass


class Record(object):
    """What one invocation of the command-line interface did."""

    def __init__(self):
        self.exc = None
        self.exit_code = None
        self.out = ''
        self.err = ''
        self.dumps = []
        self.viewers = []
        self.loops = []
        self.colors = []
        self.sockets = []
        self.watched = []
        self.clients = []
        self.served = []
        self.patched = []
        self.forks = []
        self.kills = []
        self.handlers = {}
        self.on_loop = None
        self.spawned = []
        self.connected = []
        self.left_fds = None

    @property
    def rejected(self):
        """Whether the invocation ended by an error."""
        return self.exc is not None


SIGNALS = [s for s in range(1, signal.NSIG)
           if s not in (signal.SIGKILL, signal.SIGSTOP, signal.SIGALRM,
                        signal.SIGCHLD)]
try:
    _valid = set(signal.valid_signals())
except AttributeError:
    _valid = set(range(1, signal.NSIG))
SIGNALS = [s for s in SIGNALS if s in _valid]


def handlers():
    return dict((s, signal.getsignal(s)) for s in SIGNALS)


class eventlet_stub(object):
    """A stand-in for the eventlet package."""

    def __init__(self, record):
        m = types.ModuleType('eventlet')
        p = types.ModuleType('eventlet.patcher')

        def monkey_patch(**kwargs):
            record.patched.append(('eventlet', sorted(
                k for k, v in kwargs.items() if v) or ['all']))

        def spawn(func, *args, **kwargs):
            record.spawned.append('eventlet')
            return func(*args, **kwargs)
        p.monkey_patch = m.monkey_patch = monkey_patch
        m.patcher = p
        m.spawn = m.spawn_n = spawn
        self.modules = {'eventlet': m, 'eventlet.patcher': p}

    def __enter__(self):
        self.saved = dict((k, sys.modules.get(k)) for k in self.modules)
        sys.modules.update(self.modules)

    def __exit__(self, *exc_info):
        for k, v in self.saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def context_kind():
    """The kind of the thread-like object which runs this function."""
    if isinstance(greenlet.getcurrent(), gevent.Greenlet):
        return 'gevent'
    thread = threading.current_thread()
    if thread is not threading.main_thread():
        return 'thread' if thread.daemon else 'non-daemon thread'
    return 'main'


class Capture(io.StringIO):
    """Standard output or error, with a file descriptor."""

    def __init__(self, fd):
        io.StringIO.__init__(self)
        self.fd = fd
        self.buffer = Bytes(self)

    def fileno(self):
        return self.fd


class Bytes(object):
    """The binary stream below standard output or error."""

    def __init__(self, text):
        self.text = text

    def write(self, data):
        self.text.write(bytes(data).decode('utf-8', 'surrogateescape'))
        return len(data)

    def flush(self):
        pass


def invoke(args, on_loop=None, stub_dump=True, group=True, record=None,
           fork=None, stdio=True, extra=(), keep_fds=False):
    """Runs the command-line interface once."""
    r = record or Record()
    r.on_loop = on_loop
    done = threading.Event()

    def dump(self, dump_filename, pickle_protocol='default'):
        r.dumps.append((self, dump_filename, pickle_protocol))

    def loop(self, *args, **kwargs):
        r.viewers.append(self)
        return FakeLoop(r, self)

    def serve_forever(self):
        r.served.append(('forever', self, context_kind()))
        done.set()

    def connected(self, sock):
        r.served.append(('connected', self, context_kind()))
        r.connected.append(sock)
        done.set()

    def client_start(self):
        r.clients.append(self)

    def make_socket(*args, **kwargs):
        return FakeSocket(r, args)

    def monkey(name):
        def patch(*args, **kwargs):
            r.patched.append(('gevent', name))
        return patch

    def dup2(*args, **kwargs):
        return args[1]

    def kill(pid, signum):
        r.kills.append((pid, signum))

    triples = [
        (StatisticsViewer, 'loop', loop),
        (SelectProfilingServer, 'serve_forever', serve_forever),
        (SelectProfilingServer, 'connected', connected),
        (ProfilingClient, 'start', client_start),
        (FailoverProfilingClient, 'start', client_start),
        (gevent.monkey, 'patch_select', monkey('select')),
        (gevent.monkey, 'patch_socket', monkey('socket')),
        (gevent.monkey, 'patch_all', monkey('all')),
    ]
    if fork is None:
        triples.append((socket, 'socket', make_socket))
    else:
        triples += [(os, 'fork', fork), (os, 'dup2', dup2)]
    if stub_dump:
        triples.append((Profiler, 'dump', dump))
    triples += list(extra)
    importlib.invalidate_caches()
    before = handlers()
    argv, path = sys.argv[:], sys.path[:]
    profile = sys.getprofile()
    fds = set(os.listdir('/proc/self/fd')) if fork is not None else None
    stdout, stderr = sys.stdout, sys.stderr
    if stdio:
        sys.stdout, sys.stderr = Capture(1), Capture(2)
    try:
        with eventlet_stub(r), patches(*triples):
            try:
                cli.main(args=list(args), prog_name='profiling',
                         standalone_mode=False)
            except SystemExit as exc:
                r.exc, r.exit_code = exc, exc.code
            except Exception as exc:
                r.exc = exc
            except (KeyboardInterrupt, GeneratorExit) as exc:
                r.exc = exc
            if 'gevent' in [x[0] for x in r.patched]:
                gevent.sleep(0)
            if r.sockets or fork is not None:
                # the server runs in another thread.
                if not r.rejected:
                    done.wait(10)
        r.argv = sys.argv[:]
    finally:
        if stdio:
            r.out, r.err = sys.stdout.getvalue(), sys.stderr.getvalue()
        sys.stdout, sys.stderr = stdout, stderr
        sys.argv[:], sys.path[:] = argv, path
        r.profile = sys.getprofile()
        sys.setprofile(profile)
        for signum, handler in handlers().items():
            if handler is not before[signum] and handler != before[signum]:
                r.handlers[signum] = handler
                signal.signal(signum, before[signum])
        if fds is not None:
            r.left_fds = [(fd, link) for fd, link in open_fds()
                          if fd not in fds]
            if not keep_fds:
                close_new_fds(fds)
    return r


def open_fds():
    out = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            out.append((fd, os.readlink('/proc/self/fd/' + fd)))
        except OSError:
            pass
    return out


def close_new_fds(fds):
    """Closes the files which weren't open then."""
    gc.collect()
    for fd, link in open_fds():
        if fd not in fds:
            try:
                os.close(int(fd))
            except OSError:
                pass


def pipe_ends(pipe):
    """The open write ends of a pipe of which the read end was closed."""
    out = []
    for fd in (pipe[1],):
        try:
            if os.readlink('/proc/self/fd/%d' % fd).startswith('pipe:'):
                out.append(fd)
        except OSError:
            pass
    return out

