# -*- coding: utf-8 -*-
"""Owns the sources of nondeterminism: installs trampolines at the seams
between the code under test and its environment *before* that code is imported.
Without an active environment a trampoline just calls the real function.
"""
from __future__ import absolute_import

import os
import select
import signal
import sys
import threading
import time


class Trampoline(object):
    """A replaceable function.  It is no Python function on purpose: it doesn't
    become a method when it is stored at a class.
    """

    def __init__(self, real, name):
        self.real = real
        self.name = name
        self.target = None

    def __call__(self, *args, **kwargs):
        target = self.target
        if target is None:
            return self.real(*args, **kwargs)
        return target(*args, **kwargs)

    def __repr__(self):
        return '<trampoline %s>' % self.name


TRAMPOLINES = {}


def trampoline(module, attr):
    name = '%s.%s' % (module.__name__, attr)
    if name in TRAMPOLINES:
        return TRAMPOLINES[name]
    t = Trampoline(getattr(module, attr), name)
    setattr(module, attr, t)
    TRAMPOLINES[name] = t
    return t


class patched(object):
    """Activates environment functions for the trampolines::

       with patched({'time.clock': f}):
           ...
    """

    def __init__(self, targets):
        self.targets = targets

    def __enter__(self):
        self.saved = {}
        for name, target in self.targets.items():
            t = TRAMPOLINES[name]
            self.saved[name] = t.target
            t.target = target
        return self

    def __exit__(self, *exc_info):
        for name, target in self.saved.items():
            TRAMPOLINES[name].target = target


REAL = {}


def install(*names):
    """Installs trampolines, e.g. install('time.clock')."""
    modules = {'time': time, 'sys': sys, 'threading': threading,
               'signal': signal, 'select': select, 'os': os}
    for name in names:
        mod, attr = name.split('.')
        if mod not in modules:
            modules[mod] = __import__(mod)
        if not hasattr(modules[mod], attr):
            continue
        REAL[name] = trampoline(modules[mod], attr).real


CLOCKS = ('time.clock', 'time.time', 'time.clock_gettime', 'time.thread_time',
          'time.process_time', 'time.perf_counter')


class VirtualClock(object):
    """CPU time of the process and wall time, advanced by the harness only."""

    def __init__(self, cpu=0.0, wall=1000.0):
        self.cpu = cpu
        self.wall = wall

    def targets(self):
        t = {'time.clock': lambda: self.cpu,
             'time.time': lambda: self.wall,
             'time.process_time': lambda: self.cpu,
             'time.perf_counter': lambda: self.wall}
        return dict((k, v) for k, v in t.items() if k in TRAMPOLINES)
