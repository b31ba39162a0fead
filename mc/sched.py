# -*- coding: utf-8 -*-
"""A controlled scheduler: stateless exploration of real threads.

Scheduled threads are real threads of which exactly one runs at a time.  A
scheduling point is before every bytecode of the code under test which can
touch shared state (attribute and item access, calls), and at every operation
of a synchronization primitive.  At a point the chooser decides which enabled
thread continues; preempting an enabled thread costs one deviation.
"""
from __future__ import absolute_import

import _thread
import dis
import os
import sys
import threading
import time

from mc import core, env

_real_allocate = _thread.allocate_lock
_real_get_ident = _thread.get_ident
_RealThread = threading.Thread

CODE_DIR = os.path.join(core.REPO, 'profiling') + os.sep

_LOCAL_OPS = set('''
    LOAD_FAST STORE_FAST DELETE_FAST LOAD_CONST POP_TOP ROT_TWO ROT_THREE
    ROT_FOUR DUP_TOP DUP_TOP_TWO NOP EXTENDED_ARG JUMP_FORWARD JUMP_ABSOLUTE
    POP_JUMP_IF_FALSE POP_JUMP_IF_TRUE JUMP_IF_FALSE_OR_POP SETUP_FINALLY
    JUMP_IF_TRUE_OR_POP POP_BLOCK POP_EXCEPT BUILD_TUPLE BUILD_LIST BUILD_MAP
    IS_OP COMPARE_OP JUMP_IF_NOT_EXC_MATCH RERAISE RETURN_VALUE LOAD_GLOBAL
    SETUP_LOOP BREAK_LOOP END_FINALLY LOAD_DEREF LOAD_CLOSURE LOAD_NAME
    SETUP_EXCEPT BEGIN_FINALLY CALL_FINALLY POP_FINALLY UNARY_NOT
    BINARY_SUBTRACT BINARY_ADD INPLACE_ADD INPLACE_SUBTRACT UNARY_NEGATIVE
    FORMAT_VALUE BUILD_STRING GET_ITER LIST_TO_TUPLE IMPORT_NAME IMPORT_FROM
    LOAD_BUILD_CLASS MAKE_FUNCTION LOOKUP_METHOD LOAD_METHOD SETUP_WITH
    WITH_CLEANUP_START WITH_CLEANUP_FINISH WITH_EXCEPT_START
    '''.split())
#: operations which run code of their own: a context manager's methods are
#: called by these.
_LOCAL_OPS -= set(['SETUP_WITH', 'WITH_CLEANUP_START', 'WITH_EXCEPT_START'])

_points_cache = {}


def points_of(code):
    """The offsets of the operations of the code which may touch shared state,
    or None for code that's not under test.
    """
    key = id(code)
    try:
        return _points_cache[key][1]
    except KeyError:
        pass
    if not code.co_filename.startswith(CODE_DIR):
        offsets = None
    else:
        offsets = frozenset(
            i.offset for i in dis.get_instructions(code)
            if i.opname not in _LOCAL_OPS)
    _points_cache[key] = (code, offsets)
    return offsets


class Deadlock(core.Mismatch):
    pass


class Killed(BaseException):
    """Unwinds the threads of an abandoned execution."""


class SThread(object):
    """A scheduled thread."""

    def __init__(self, sched, index, func, name):
        self.sched = sched
        self.index = index
        self.func = func
        self.name = name
        self.gate = _real_allocate()
        self.gate.acquire()
        self.done = False
        self.blocked_on = None  # a predicate; enabled when it's true.
        self.exc = None

    def enabled(self):
        return not self.done and (self.blocked_on is None or
                                  self.blocked_on())


_current = {}


def current():
    """The scheduled thread running this code, if any."""
    return _current.get(_real_get_ident())


class Scheduler(object):

    def __init__(self, chooser, granularity='opcode', max_points=200000):
        self.chooser = chooser
        self.granularity = granularity
        self.threads = []
        self.running = None
        self.finished = _real_allocate()
        self.finished.acquire()
        self.failure = None
        self.killing = False
        self.steps = 0
        self.switches = 0
        self.max_points = max_points
        self.atomic = 0
        self.on_point = None
        self.schedule = []

    def spawn(self, func, name=None):
        t = SThread(self, len(self.threads), func,
                    name or 'T%d' % len(self.threads))
        self.threads.append(t)
        return t

    def run(self):
        for t in self.threads:
            self._start(t)
        first = self._choose(None, 'start')
        self.running = first
        first.gate.release()
        self.finished.acquire()
        for t in self.threads:
            t.thread_done.acquire()
        if self.failure is not None:
            raise self.failure
        for t in self.threads:
            if t.exc is not None:
                raise t.exc

    def _start(self, t):
        t.thread_done = _real_allocate()
        t.thread_done.acquire()
        _thread.start_new_thread(self._body, (t,))

    def _body(self, t):
        t.ident = _real_get_ident()
        _current[t.ident] = t
        try:
            t.gate.acquire()
            if self.killing:
                return
            if self.granularity:
                sys.settrace(self._trace)
            try:
                t.func()
            finally:
                sys.settrace(None)
        except Killed:
            pass
        except BaseException as exc:
            t.exc = exc
        finally:
            _current.pop(t.ident, None)
            t.done = True
            try:
                self._leave(t)
            except BaseException as exc:
                if self.failure is None:
                    self.failure = exc
                self._kill(t)
            t.thread_done.release()

    def _leave(self, t):
        """The running thread ended: another one goes on."""
        if self.killing:
            self._kill(t)
            return
        if t.exc is not None:
            self._kill(t)
            return
        if all(x.done for x in self.threads):
            self.finished.release()
            return
        nxt = self._choose(None, 'exit')
        self.running = nxt
        nxt.gate.release()

    def _kill(self, t):
        """Unwinds the remaining threads one after another."""
        self.killing = True
        for x in self.threads:
            if not x.done and x is not t:
                x.gate.release()
                return
        self.finished.release()

    def _choose(self, me, label):
        enabled = [x for x in self.threads if x.enabled()]
        if not enabled:
            raise Deadlock('deadlock: %s' % ', '.join(
                x.name for x in self.threads if not x.done))
        if me is not None and me in enabled:
            enabled.remove(me)
            enabled.insert(0, me)
            cost = 1
        else:
            cost = 0
        if len(enabled) == 1:
            return enabled[0]
        return enabled[self.chooser(len(enabled), label, cost)]

    def point(self, label=''):
        """A scheduling point of the running thread."""
        if self.atomic:
            return
        me = current()
        if me is None or me.sched is not self:
            return
        if self.killing:
            raise Killed()
        self.steps += 1
        if self.steps > self.max_points:
            raise core.Mismatch('livelock: more than %d steps' %
                                self.max_points)
        nxt = self._choose(me, label)
        if nxt is not me:
            self._switch(me, nxt)
        if self.on_point is not None:
            self.atomic += 1
            try:
                self.on_point(me)
            finally:
                self.atomic -= 1

    def _switch(self, me, nxt):
        self.switches += 1
        self.running = nxt
        nxt.gate.release()
        me.gate.acquire()
        if self.killing:
            raise Killed()

    def block(self, predicate, label='block'):
        """Blocks the running thread until the predicate holds."""
        me = current()
        if self.killing:
            raise Killed()
        while not predicate():
            me.blocked_on = predicate
            try:
                nxt = self._choose(me, label)
                if nxt is not me:
                    self._switch(me, nxt)
            finally:
                me.blocked_on = None

    # -- tracing ------------------------------------------------------------

    def _trace(self, frame, event, arg):
        offsets = points_of(frame.f_code)
        if offsets is None:
            return None
        frame.f_trace_opcodes = self.granularity == 'opcode'
        return self._trace_local

    def _trace_local(self, frame, event, arg):
        if event == 'opcode':
            if frame.f_lasti in points_of(frame.f_code):
                self.point()
        elif event == 'line' and self.granularity == 'line':
            self.point()
        return self._trace_local


# -- synchronization primitives ----------------------------------------------


def _sched():
    t = current()
    return t.sched if t is not None else None


class CLock(object):
    """A controlled lock."""

    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def _me(self):
        return current() or 'main'

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        sched = _sched()
        if sched is not None:
            sched.point('acquire')
        if self.reentrant and self.owner == me and self.count:
            self.count += 1
            return True
        if self.count:
            if not blocking:
                return False
            if sched is None:
                raise core.Mismatch('deadlock: lock is held')
            sched.block(lambda: not self.count, 'lock')
        self.owner = me
        self.count = 1
        return True

    def release(self):
        if not self.count:
            raise RuntimeError('release unlocked lock')
        if self.reentrant and self.owner != self._me():
            raise RuntimeError('cannot release un-acquired lock')
        self.count -= 1
        if not self.count:
            self.owner = None
        sched = _sched()
        if sched is not None and not sched.killing:
            sched.point('release')

    def locked(self):
        return bool(self.count)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc_info):
        self.release()


class CRLock(CLock):

    reentrant = True


class CEvent(object):
    """A controlled event."""

    def __init__(self):
        self.flag = False

    def is_set(self):
        sched = _sched()
        if sched is not None:
            sched.point('is_set')
        return self.flag

    isSet = is_set

    def set(self):
        sched = _sched()
        if sched is not None:
            sched.point('set')
        self.flag = True

    def clear(self):
        sched = _sched()
        if sched is not None:
            sched.point('clear')
        self.flag = False

    def wait(self, timeout=None):
        sched = _sched()
        if sched is None:
            if not self.flag and timeout is None:
                raise core.Mismatch('deadlock: event is never set')
            return self.flag
        sched.point('wait')
        if timeout is None:
            sched.block(lambda: self.flag, 'event')
        elif not self.flag:
            # may time out or be set in the meantime.
            sched.point('timeout')
        return self.flag


class CCondition(object):
    """A controlled condition."""

    def __init__(self, lock=None):
        self.lock = lock if lock is not None else CRLock()
        self.acquire = self.lock.acquire
        self.release = self.lock.release
        self.waiters = []

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *exc_info):
        return self.lock.__exit__(*exc_info)

    def wait(self, timeout=None):
        token = [False]
        self.waiters.append(token)
        count, self.lock.count = self.lock.count, 0
        owner, self.lock.owner = self.lock.owner, None
        sched = _sched()
        if sched is None:
            raise core.Mismatch('deadlock: condition is never notified')
        if timeout is None:
            sched.block(lambda: token[0], 'condition')
        else:
            sched.point('timeout')
        sched.block(lambda: not self.lock.count, 'lock')
        self.lock.owner, self.lock.count = owner, count
        if token in self.waiters:
            self.waiters.remove(token)
        return token[0]

    def wait_for(self, predicate, timeout=None):
        while not predicate():
            self.wait(timeout)
            if timeout is not None:
                break
        return predicate()

    def notify(self, n=1):
        for token in self.waiters[:n]:
            token[0] = True
            self.waiters.remove(token)

    def notify_all(self):
        self.notify(len(self.waiters))

    notifyAll = notify_all


class CSemaphore(object):
    """A controlled semaphore."""

    def __init__(self, value=1):
        self.value = value

    def acquire(self, blocking=True, timeout=None):
        sched = _sched()
        if sched is not None:
            sched.point('acquire')
        if not self.value:
            if not blocking:
                return False
            if sched is None:
                raise core.Mismatch('deadlock: semaphore is zero')
            sched.block(lambda: self.value > 0, 'semaphore')
        self.value -= 1
        return True

    __enter__ = acquire

    def release(self, n=1):
        self.value += n
        sched = _sched()
        if sched is not None and not sched.killing:
            sched.point('release')

    def __exit__(self, *exc_info):
        self.release()


def _install():
    """Code under test gets controlled primitives, everything else real ones.
    """
    def dispatch(real, controlled):
        def make(*args, **kwargs):
            frame = sys._getframe(1)
            # skip the trampoline.
            while frame is not None and \
                    frame.f_globals.get('__name__') in ('mc.env', 'mc.sched'):
                frame = frame.f_back
            name = frame.f_globals.get('__name__', '') if frame else ''
            if name == 'profiling' or name.startswith('profiling.'):
                return controlled(*args, **kwargs)
            return real(*args, **kwargs)
        return make
    for attr, controlled in [('Lock', CLock), ('RLock', CRLock),
                             ('Event', CEvent), ('Condition', CCondition),
                             ('Semaphore', CSemaphore),
                             ('BoundedSemaphore', CSemaphore)]:
        t = env.trampoline(threading, attr)
        t.target = dispatch(t.real, controlled)
    t = env.trampoline(_thread, 'allocate_lock')
    t.target = dispatch(t.real, CLock)


_install()
