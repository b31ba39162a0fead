# -*- coding: utf-8 -*-
"""A model of the process environment which profilers hook into: profile
functions, signal handlers, interval timers, greenlet trace functions, clocks.
Any call which changes it can be made to fail.
"""
from __future__ import absolute_import

import signal
import sys

from mc import env
env.install('sys.setprofile', 'sys.getprofile', 'threading.setprofile',
            'signal.signal', 'signal.getsignal', 'signal.setitimer',
            'signal.getitimer', 'os.kill', 'greenlet.settrace',
            'greenlet.gettrace', *env.CLOCKS)


class Injected(Exception):
    """An injected failure."""


class HookWorld(object):

    def __init__(self):
        self.profile = None
        self.thread_profile = None
        self.handlers = {}
        self.itimers = {}
        self.greenlet_trace = None
        self.cpu = 0.0
        self.wall = 1000.0
        self.thread_cpu = 0.0
        self.calls = 0
        self.fail_at = None
        self.fail_with = Injected

    # -- faults -------------------------------------------------------------

    def arm(self, fail_at, fail_with=Injected):
        self.calls = 0
        self.fail_at = fail_at
        self.fail_with = fail_with

    def disarm(self):
        self.fail_at = None

    def _call(self):
        self.calls += 1
        if self.fail_at is not None and self.calls == self.fail_at:
            raise self.fail_with('injected at call %d' % self.calls)

    # -- environment functions ----------------------------------------------

    def setprofile(self, func):
        self._call()
        self.profile = func

    def getprofile(self):
        return self.profile

    def thread_setprofile(self, func):
        self._call()
        self.thread_profile = func

    def signal(self, signum, handler):
        self._call()
        old = self.getsignal(signum)
        self.handlers[int(signum)] = handler
        return old

    def getsignal(self, signum):
        return self.handlers.get(int(signum), signal.SIG_DFL)

    def setitimer(self, which, seconds, interval=0.0):
        self._call()
        old = self.getitimer(which)
        self.itimers[int(which)] = (seconds, interval if seconds else 0.0)
        return old

    def getitimer(self, which):
        return self.itimers.get(int(which), (0.0, 0.0))

    def settrace(self, func):
        self._call()
        old, self.greenlet_trace = self.greenlet_trace, func
        return old

    def gettrace(self):
        return self.greenlet_trace

    def kill(self, pid, signum):
        # delivered at once: this is the main thread.
        handler = self.getsignal(signum)
        if callable(handler):
            handler(signum, sys._getframe(1))

    def targets(self):
        targets = {
            'sys.setprofile': self.setprofile,
            'sys.getprofile': self.getprofile,
            'threading.setprofile': self.thread_setprofile,
            'signal.signal': self.signal,
            'signal.getsignal': self.getsignal,
            'signal.setitimer': self.setitimer,
            'signal.getitimer': self.getitimer,
            'greenlet.settrace': self.settrace,
            'greenlet.gettrace': self.gettrace,
            'os.kill': self.kill,
            'time.clock': lambda: self.cpu,
            'time.process_time': lambda: self.cpu,
            'time.time': lambda: self.wall,
            'time.perf_counter': lambda: self.wall,
            'time.clock_gettime': lambda which: self.thread_cpu,
            'time.thread_time': lambda: self.thread_cpu,
        }
        return dict((k, v) for k, v in targets.items()
                    if k in env.TRAMPOLINES)

    def active(self):
        return env.patched(self.targets())

    def snapshot(self):
        """What is installed, apart from defaults."""
        return {
            'profile': self.profile,
            'thread_profile': self.thread_profile,
            'handlers': dict((k, v) for k, v in self.handlers.items()),
            'itimers': dict((k, v) for k, v in self.itimers.items()
                            if v != (0.0, 0.0)),
            'greenlet_trace': self.greenlet_trace,
        }
