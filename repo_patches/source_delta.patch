From acaf9f96711bda4fc09822e37387026900256c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:25 +0000
Subject: [PATCH 01/37] fix: count calls and samples of a function which was
 first seen as an absent frame

The statistics of a frame which was just on the stack (started before the
profiler, or not sampled yet) stayed void for ever: all later hits and times of
that call path were silently discarded.
---
 profiling/stats.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/profiling/stats.py b/profiling/stats.py
index 525c513..7b6c500 100644
--- a/profiling/stats.py
+++ b/profiling/stats.py
@@ -251,10 +251,15 @@ class RecordingStatistics(Statistics):
 
     def ensure_child(self, code, adding_stat_class=None):
         stats = self._children.get(code)
+        stat_class = adding_stat_class or type(self)
         if stats is None:
-            stat_class = adding_stat_class or type(self)
             stats = stat_class(code)
             self.add_child(code, stats)
+        elif (isinstance(stats, VoidRecordingStatistics) and
+              not issubclass(stat_class, VoidRecordingStatistics)):
+            # the frame was absent until now.
+            stats = stats.to_recording(stat_class)
+            self.add_child(code, stats)
         return stats
 
     def clear(self):
@@ -290,6 +295,15 @@ class VoidRecordingStatistics(RecordingStatistics):
 
     deep_time = property(deep_time, noop)
 
+    def to_recording(self, stat_class=RecordingStatistics):
+        """Makes a recording statistics which takes over what was collected
+        under the absent frame.
+        """
+        stats = stat_class(self.code)
+        stats.deep_time = self.deep_time
+        stats._children.update(self._children)
+        return stats
+
 
 class FrozenStatistics(Statistics):
     """Frozen :class:`Statistics` to serialize by Pickle."""
-- 
2.43.0


From 8848e21d7487841854c6b5786d9f3d462f538f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:00 +0000
Subject: [PATCH 02/37] fix: don't merge functions of different files which
 have equal code

Code objects with the same name, line number and body are equal even if they
come from different files (such as the code of empty __init__.py modules), so
their calls were attributed to whichever was called first.
---
 profiling/stats.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/profiling/stats.py b/profiling/stats.py
index 7b6c500..63f6863 100644
--- a/profiling/stats.py
+++ b/profiling/stats.py
@@ -195,6 +195,13 @@ class Statistics(with_metaclass(StatisticsMeta)):
                 ''.format(class_name, name_string, hits_string, time_string))
 
 
+def code_key(code):
+    """Makes a key to distinguish the given code.  Code objects at the same line
+    of different files are equal if they have the same name and body.
+    """
+    return (code, getattr(code, 'co_filename', None))
+
+
 class RecordingStatistics(Statistics):
     """Recordig statistics measures execution time of a code."""
 
@@ -238,19 +245,19 @@ class RecordingStatistics(Statistics):
         return list(itervalues(self._children))
 
     def get_child(self, code):
-        return self._children[code]
+        return self._children[code_key(code)]
 
     def add_child(self, code, stats):
-        self._children[code] = stats
+        self._children[code_key(code)] = stats
 
     def remove_child(self, code):
-        del self._children[code]
+        del self._children[code_key(code)]
 
     def discard_child(self, code):
-        self._children.pop(code, None)
+        self._children.pop(code_key(code), None)
 
     def ensure_child(self, code, adding_stat_class=None):
-        stats = self._children.get(code)
+        stats = self._children.get(code_key(code))
         stat_class = adding_stat_class or type(self)
         if stats is None:
             stats = stat_class(code)
@@ -274,7 +281,7 @@ class RecordingStatistics(Statistics):
         return len(self._children)
 
     def __contains__(self, code):
-        return code in self._children
+        return code_key(code) in self._children
 
 
 class VoidRecordingStatistics(RecordingStatistics):
-- 
2.43.0


From 3629db4978a0509b9d1219b4764d959298c250ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:18 +0000
Subject: [PATCH 03/37] fix: don't subtract the overhead of leaving a call
 twice

The overhead already includes the time since time1, so the inclusive time of
every call was too short by the time it took to find its statistics.
---
 profiling/tracing/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/profiling/tracing/__init__.py b/profiling/tracing/__init__.py
index 2a1870b..584e2f8 100644
--- a/profiling/tracing/__init__.py
+++ b/profiling/tracing/__init__.py
@@ -102,7 +102,8 @@ class TracingProfiler(Profiler):
             time = time2 - self.overhead
             self.record_entering(time, code, frame_key, parent_stats)
         elif event == 'return':
-            time = time1 - self.overhead
+            # the overhead includes the time between time1 and time2.
+            time = time2 - self.overhead
             self.record_leaving(time, code, frame_key, parent_stats)
         time3 = self.timer()
         self.overhead += time3 - time2
-- 
2.43.0


From 0a2b559bfb0cd9de9446807b9ee7e4c5087b059c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:41 +0000
Subject: [PATCH 04/37] fix: don't become running or lose the running session
 when start() fails

---
 profiling/profiler.py | 3 +++
 profiling/utils.py    | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/profiling/profiler.py b/profiling/profiler.py
index eee0e86..9d6aa30 100644
--- a/profiling/profiler.py
+++ b/profiling/profiler.py
@@ -46,6 +46,9 @@ class Profiler(Runnable):
         self.stats = RecordingStatistics()
 
     def start(self):
+        if self.is_running():
+            # don't touch the result of the running session.
+            raise RuntimeError('Already started')
         self._cpu_time_started = time.clock()
         self._wall_time_started = time.time()
         self.stats.clear()
diff --git a/profiling/utils.py b/profiling/utils.py
index 5f69fff..94c8b25 100644
--- a/profiling/utils.py
+++ b/profiling/utils.py
@@ -48,8 +48,15 @@ class Runnable(object):
         try:
             yielded = next(self._running)
         except StopIteration:
+            self._running = None
             raise TypeError('run() must yield just one time')
+        except BaseException:
+            # failed to start.
+            self._running = None
+            raise
         if yielded is not None:
+            running, self._running = self._running, None
+            running.close()
             raise TypeError('run() must yield without value')
 
     def stop(self):
@@ -68,6 +75,7 @@ class Runnable(object):
             # expected.
             pass
         else:
+            running.close()
             raise TypeError('run() must yield just one time')
 
     def run(self, *args, **kwargs):
-- 
2.43.0


From 86bd68166c6094c53b2064175d1415cbdaff8866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:23 +0000
Subject: [PATCH 05/37] fix: serialize recording of several threads and don't
 record threads after stop()

---
 profiling/profiler.py          | 11 ++++++++--
 profiling/sampling/__init__.py |  2 ++
 profiling/sampling/samplers.py | 10 ++++++++-
 profiling/tracing/__init__.py  | 13 ++++++++++--
 profiling/utils.py             | 39 +++++++++++++++++++++++++++++++++-
 5 files changed, 69 insertions(+), 6 deletions(-)

diff --git a/profiling/profiler.py b/profiling/profiler.py
index 9d6aa30..f1e6372 100644
--- a/profiling/profiler.py
+++ b/profiling/profiler.py
@@ -16,14 +16,14 @@ except ImportError:
 import time
 
 from profiling.stats import RecordingStatistics
-from profiling.utils import frame_stack, Runnable
+from profiling.utils import frame_stack, Runnable, Synchronized, synchronized
 from profiling.viewer import StatisticsTable, StatisticsViewer
 
 
 __all__ = ['Profiler', 'ProfilerWrapper']
 
 
-class Profiler(Runnable):
+class Profiler(Runnable, Synchronized):
     """The base class for profiler."""
 
     #: A widget class which extends :class:`profiling.viewer.StatisticsTable`.
@@ -44,7 +44,9 @@ class Profiler(Runnable):
         self.ignored_frames = ignored_frames
         self.ignored_codes = ignored_codes
         self.stats = RecordingStatistics()
+        Synchronized.__init__(self)
 
+    @synchronized
     def start(self):
         if self.is_running():
             # don't touch the result of the running session.
@@ -54,6 +56,10 @@ class Profiler(Runnable):
         self.stats.clear()
         return super(Profiler, self).start()
 
+    def stop(self):
+        with self.lock:
+            return super(Profiler, self).stop()
+
     def frame_stack(self, frame):
         return frame_stack(frame, self.base_frame, self.base_code,
                            self.ignored_frames, self.ignored_codes)
@@ -126,3 +132,4 @@ class ProfilerWrapper(Profiler):
 
     def __init__(self, profiler):
         self.profiler = profiler
+        Synchronized.__init__(self)
diff --git a/profiling/sampling/__init__.py b/profiling/sampling/__init__.py
index d13e851..08e4d1a 100644
--- a/profiling/sampling/__init__.py
+++ b/profiling/sampling/__init__.py
@@ -16,6 +16,7 @@ from profiling.profiler import Profiler
 from profiling.sampling.samplers import ItimerSampler, Sampler
 from profiling.stats import (
     RecordingStatistics, VoidRecordingStatistics as void)
+from profiling.utils import synchronized
 from profiling.viewer import fmt, StatisticsTable
 
 
@@ -62,6 +63,7 @@ class SamplingProfiler(Profiler):
         base.__init__(base_frame, base_code, ignored_frames, ignored_codes)
         self.sampler = sampler
 
+    @synchronized
     def sample(self, frame):
         """Samples the given frame."""
         frames = self.frame_stack(frame)
diff --git a/profiling/sampling/samplers.py b/profiling/sampling/samplers.py
index 4c4a288..69eb71c 100644
--- a/profiling/sampling/samplers.py
+++ b/profiling/sampling/samplers.py
@@ -97,6 +97,13 @@ class TracingSampler(Sampler):
         if self.counter % 10000 == 0:
             self._clear_for_dead_threads()
 
+    def _profile_thread(self, profiler, frame, event, arg):
+        # a thread keeps the callback function even if it lives longer than
+        # the session.
+        with profiler.lock:
+            if self.is_running():
+                self._profile(profiler, frame, event, arg)
+
     def _clear_for_dead_threads(self):
         for thread_id in sys._current_frames().keys():
             self.sampled_times.pop(thread_id, None)
@@ -106,6 +113,7 @@ class TracingSampler(Sampler):
         with deferral() as defer:
             sys.setprofile(profile)
             defer(sys.setprofile, None)
-            threading.setprofile(profile)
+            threading.setprofile(
+                functools.partial(self._profile_thread, profiler))
             defer(threading.setprofile, None)
             yield
diff --git a/profiling/tracing/__init__.py b/profiling/tracing/__init__.py
index 584e2f8..f683cdd 100644
--- a/profiling/tracing/__init__.py
+++ b/profiling/tracing/__init__.py
@@ -19,7 +19,7 @@ from profiling.profiler import Profiler
 from profiling.stats import (
     RecordingStatistics, VoidRecordingStatistics as void)
 from profiling.tracing.timers import Timer
-from profiling.utils import deferral
+from profiling.utils import deferral, synchronized
 from profiling.viewer import fmt, StatisticsTable
 
 
@@ -77,6 +77,7 @@ class TracingProfiler(Profiler):
         self.timer = timer
         self._times_entered = {}
 
+    @synchronized
     def _profile(self, frame, event, arg):
         """The callback function to register by :func:`sys.setprofile`."""
         # c = event.startswith('c_')
@@ -108,6 +109,14 @@ class TracingProfiler(Profiler):
         time3 = self.timer()
         self.overhead += time3 - time2
 
+    @synchronized
+    def _profile_thread(self, frame, event, arg):
+        """The callback function to register by :func:`threading.setprofile`.
+        A thread keeps it even if it lives longer than the session.
+        """
+        if self.is_running():
+            self._profile(frame, event, arg)
+
     def record_entering(self, time, code, frame_key, parent_stats):
         """Entered to a function call."""
         stats = parent_stats.ensure_child(code, RecordingStatistics)
@@ -140,7 +149,7 @@ class TracingProfiler(Profiler):
             self.overhead = 0.0
             sys.setprofile(self._profile)
             defer(sys.setprofile, None)
-            threading.setprofile(self._profile)
+            threading.setprofile(self._profile_thread)
             defer(threading.setprofile, None)
             self.timer.start(self)
             defer(self.timer.stop)
diff --git a/profiling/utils.py b/profiling/utils.py
index 94c8b25..4d2ff8f 100644
--- a/profiling/utils.py
+++ b/profiling/utils.py
@@ -11,7 +11,11 @@ from __future__ import absolute_import
 
 from collections import deque
 from contextlib import contextmanager
+import functools
+import os
 import sys
+import threading
+import weakref
 
 try:
     from profiling import speedup
@@ -20,7 +24,7 @@ except ImportError:
 
 
 __all__ = ['Runnable', 'frame_stack', 'repr_frame', 'lazy_import', 'deferral',
-           'thread_clock', 'noop']
+           'thread_clock', 'Synchronized', 'synchronized', 'noop']
 
 
 class Runnable(object):
@@ -173,5 +177,38 @@ else:
         return time.clock_gettime(time.CLOCK_THREAD_CPUTIME_ID)
 
 
+class Synchronized(object):
+    """The base class for classes which have :func:`synchronized` methods."""
+
+    def __init__(self):
+        self.renew_lock()
+        _synchronized.add(self)
+
+    def renew_lock(self):
+        self.lock = threading.RLock()
+
+
+def synchronized(f):
+    """Lets only one thread at a time call such methods of an instance."""
+    @functools.wraps(f)
+    def wrapped(self, *args, **kwargs):
+        with self.lock:
+            return f(self, *args, **kwargs)
+    return wrapped
+
+
+_synchronized = weakref.WeakSet()
+
+
+def _renew_locks():
+    # the thread which holds a lock doesn't exist in the forked process.
+    for instance in list(_synchronized):
+        instance.renew_lock()
+
+
+if hasattr(os, 'register_at_fork'):
+    os.register_at_fork(after_in_child=_renew_locks)
+
+
 #: Does nothing.  It allows any arguments.
 noop = lambda x, *a, **k: None
-- 
2.43.0


From 80b0c577e2dc5db9aba871b276c77b085baa1d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:47 +0000
Subject: [PATCH 06/37] fix: keep overhead and times of contexts apart, also
 over several sessions

---
 profiling/tracing/__init__.py | 25 ++++++++++++++++---------
 profiling/tracing/timers.py   | 12 ++++++++++++
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/profiling/tracing/__init__.py b/profiling/tracing/__init__.py
index f683cdd..c03dfb2 100644
--- a/profiling/tracing/__init__.py
+++ b/profiling/tracing/__init__.py
@@ -63,10 +63,6 @@ class TracingProfiler(Profiler):
     #: timers.Timer`.
     timer = None
 
-    #: The CPU time of profiling overhead.  It's the time spent in
-    #: :meth:`_profile`.
-    overhead = 0.0
-
     def __init__(self, base_frame=None, base_code=None,
                  ignored_frames=(), ignored_codes=(), timer=None):
         timer = timer or TIMER_CLASS()
@@ -76,6 +72,14 @@ class TracingProfiler(Profiler):
         base.__init__(base_frame, base_code, ignored_frames, ignored_codes)
         self.timer = timer
         self._times_entered = {}
+        self._overheads = {}
+
+    @property
+    def overhead(self):
+        """The CPU time of profiling overhead.  It's the time spent in
+        :meth:`_profile`.
+        """
+        return sum(self._overheads.values())
 
     @synchronized
     def _profile(self, frame, event, arg):
@@ -83,6 +87,9 @@ class TracingProfiler(Profiler):
         # c = event.startswith('c_')
         if event.startswith('c_'):
             return
+        # a context is not delayed by the overhead of another one.
+        context = self.timer.detect_context()
+        overhead = self._overheads.get(context, 0.0)
         time1 = self.timer()
         frames = self.frame_stack(frame)
         if frames:
@@ -98,16 +105,16 @@ class TracingProfiler(Profiler):
         #     frame_key = id(arg)
         # record
         time2 = self.timer()
-        self.overhead += time2 - time1
+        overhead += time2 - time1
         if event == 'call':
-            time = time2 - self.overhead
+            time = time2 - overhead
             self.record_entering(time, code, frame_key, parent_stats)
         elif event == 'return':
             # the overhead includes the time between time1 and time2.
-            time = time2 - self.overhead
+            time = time2 - overhead
             self.record_leaving(time, code, frame_key, parent_stats)
         time3 = self.timer()
-        self.overhead += time3 - time2
+        self._overheads[context] = overhead + time3 - time2
 
     @synchronized
     def _profile_thread(self, frame, event, arg):
@@ -146,7 +153,7 @@ class TracingProfiler(Profiler):
             raise RuntimeError('Another profiler already registered')
         with deferral() as defer:
             self._times_entered.clear()
-            self.overhead = 0.0
+            self._overheads.clear()
             sys.setprofile(self._profile)
             defer(sys.setprofile, None)
             threading.setprofile(self._profile_thread)
diff --git a/profiling/tracing/timers.py b/profiling/tracing/timers.py
index a61396a..4505db3 100644
--- a/profiling/tracing/timers.py
+++ b/profiling/tracing/timers.py
@@ -11,6 +11,8 @@ from __future__ import absolute_import
 
 import time
 
+import six.moves._thread as _thread
+
 from profiling.utils import lazy_import, Runnable, thread_clock
 
 
@@ -26,6 +28,11 @@ class Timer(Runnable):
     def __call__(self):
         return self.clock()
 
+    def detect_context(self):
+        """Gets the key of the context the timer measures now.  The basic timer
+        measures all of the process.
+        """
+
     def run(self, profiler):
         yield
 
@@ -72,6 +79,9 @@ class ThreadTimer(Timer):
     def __call__(self):
         return thread_clock()
 
+    def detect_context(self):
+        return _thread.get_ident()
+
 
 class GreenletTimer(ContextualTimer):
     """A timer to get CPU time per greenlet."""
@@ -88,6 +98,8 @@ class GreenletTimer(ContextualTimer):
         self.resume(id(target))
 
     def run(self, profiler):
+        # the times don't go on while it isn't tracing.
+        self._contextual_times.clear()
         self.greenlet.settrace(self._trace)
         yield
         self.greenlet.settrace(None)
-- 
2.43.0


From 17862951ac3075fbfa3b7f92a8000b4178d11af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 07/37] fix: call every deferred function even if one of them
 fails

---
 profiling/utils.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/profiling/utils.py b/profiling/utils.py
index 4d2ff8f..a6ce0e1 100644
--- a/profiling/utils.py
+++ b/profiling/utils.py
@@ -160,9 +160,18 @@ def deferral():
     try:
         yield defer
     finally:
-        while deferred:
-            f, a, k = deferred.pop()
+        call_deferred(deferred)
+
+
+def call_deferred(deferred):
+    while deferred:
+        f, a, k = deferred.pop()
+        try:
             f(*a, **k)
+        except BaseException:
+            # call the others also.
+            call_deferred(deferred)
+            raise
 
 
 if sys.version_info < (3, 3):
-- 
2.43.0


From f25d2fd3cdf1d4cb00b8126f8466e376dcc49942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:13 +0000
Subject: [PATCH 08/37] fix: let the tracing sampler keep the interval also of
 threads which reuse an id or outlive 10000 samples

---
 profiling/sampling/samplers.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/profiling/sampling/samplers.py b/profiling/sampling/samplers.py
index 69eb71c..b50a084 100644
--- a/profiling/sampling/samplers.py
+++ b/profiling/sampling/samplers.py
@@ -15,8 +15,6 @@ import sys
 import threading
 import weakref
 
-import six.moves._thread as _thread
-
 from profiling.utils import deferral, Runnable, thread_clock
 
 
@@ -82,20 +80,16 @@ class TracingSampler(Sampler):
 
     def __init__(self, *args, **kwargs):
         super(TracingSampler, self).__init__(*args, **kwargs)
-        self.sampled_times = {}
-        self.counter = 0
+        # a thread id can be used again by another thread.
+        self.sampled = threading.local()
 
     def _profile(self, profiler, frame, event, arg):
         t = thread_clock()
-        thread_id = _thread.get_ident()
-        sampled_at = self.sampled_times.get(thread_id, 0)
+        sampled_at = getattr(self.sampled, 'at', 0)
         if t - sampled_at < self.interval:
             return
-        self.sampled_times[thread_id] = t
+        self.sampled.at = t
         profiler.sample(frame)
-        self.counter += 1
-        if self.counter % 10000 == 0:
-            self._clear_for_dead_threads()
 
     def _profile_thread(self, profiler, frame, event, arg):
         # a thread keeps the callback function even if it lives longer than
@@ -104,10 +98,6 @@ class TracingSampler(Sampler):
             if self.is_running():
                 self._profile(profiler, frame, event, arg)
 
-    def _clear_for_dead_threads(self):
-        for thread_id in sys._current_frames().keys():
-            self.sampled_times.pop(thread_id, None)
-
     def run(self, profiler):
         profile = functools.partial(self._profile, profiler)
         with deferral() as defer:
-- 
2.43.0


From d7257a512624a2218ac2651d213c0bed8565b466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:22 +0000
Subject: [PATCH 09/37] fix: sort statistics which have no name or module

---
 profiling/sortkeys.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/profiling/sortkeys.py b/profiling/sortkeys.py
index 019ba89..124f7fb 100644
--- a/profiling/sortkeys.py
+++ b/profiling/sortkeys.py
@@ -30,13 +30,13 @@ class SortKey(object):
 
 
 #: Sorting by name in ascending order.
-by_name = SortKey(lambda stat: stat.name)
+by_name = SortKey(lambda stat: stat.name or '')
 
 #: Sorting by module in ascending order.
-by_module = SortKey(lambda stat: stat.module)
+by_module = SortKey(lambda stat: stat.module or '')
 
 #: Sorting by module and name in ascending order.
-by_function = SortKey(lambda stat: (stat.module, stat.name))
+by_function = SortKey(lambda stat: (stat.module or '', stat.name or ''))
 
 #: Sorting by number of inclusive hits in descending order.
 by_deep_hits = SortKey(lambda stat: -stat.deep_hits)
-- 
2.43.0


From 5f2854a785516c8fd006fb730304ec226c3bee5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:56 +0000
Subject: [PATCH 10/37] fix: let sort keys of names and of several values be
 inverted

---
 profiling/sortkeys.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/profiling/sortkeys.py b/profiling/sortkeys.py
index 124f7fb..7decf30 100644
--- a/profiling/sortkeys.py
+++ b/profiling/sortkeys.py
@@ -9,12 +9,30 @@
 """
 from __future__ import absolute_import
 
+import functools
+
 
 __all__ = ['by_name', 'by_module', 'by_deep_hits', 'by_own_hits',
            'by_deep_time', 'by_own_time', 'by_deep_time_per_call',
            'by_own_time_per_call']
 
 
+@functools.total_ordering
+class Inverted(object):
+    """Wraps a value to order it inversely."""
+
+    __slots__ = ('value',)
+
+    def __init__(self, value):
+        self.value = value
+
+    def __eq__(self, other):
+        return self.value == other.value
+
+    def __lt__(self, other):
+        return other.value < self.value
+
+
 class SortKey(object):
 
     def __init__(self, func):
@@ -26,7 +44,7 @@ class SortKey(object):
 
     def __invert__(self):
         cls = type(self)
-        return cls(lambda stat: -self.func(stat))
+        return cls(lambda stat: Inverted(self.func(stat)))
 
 
 #: Sorting by name in ascending order.
-- 
2.43.0


From 8f590b4ae8a4d029ba33f21fadf05dcce7088882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:09 +0000
Subject: [PATCH 11/37] fix: let a running session's statistics be walked,
 pickled and dumped

---
 profiling/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/profiling/stats.py b/profiling/stats.py
index 63f6863..001b070 100644
--- a/profiling/stats.py
+++ b/profiling/stats.py
@@ -275,7 +275,8 @@ class RecordingStatistics(Statistics):
             setattr(self, attr, value)
 
     def __iter__(self):
-        return itervalues(self._children)
+        # a running session can add children while they are being walked.
+        return iter(self.children)
 
     def __len__(self):
         return len(self._children)
-- 
2.43.0


From 7efaf97d0814297211cba4a951d9efb0f43d6145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:16 +0000
Subject: [PATCH 12/37] fix: keep the times of the result after the session as
 they were when it stopped

---
 profiling/profiler.py         | 21 ++++++++++++++++-----
 profiling/tracing/__init__.py |  2 +-
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/profiling/profiler.py b/profiling/profiler.py
index f1e6372..b980024 100644
--- a/profiling/profiler.py
+++ b/profiling/profiler.py
@@ -37,6 +37,9 @@ class Profiler(Runnable, Synchronized):
     ignored_frames = ()
     ignored_codes = ()
 
+    #: The CPU and wall time of the last session.
+    _times_elapsed = (0.0, 0.0)
+
     def __init__(self, base_frame=None, base_code=None,
                  ignored_frames=(), ignored_codes=()):
         self.base_frame = base_frame
@@ -53,13 +56,22 @@ class Profiler(Runnable, Synchronized):
             raise RuntimeError('Already started')
         self._cpu_time_started = time.clock()
         self._wall_time_started = time.time()
+        self._times_elapsed = (0.0, 0.0)
         self.stats.clear()
         return super(Profiler, self).start()
 
     def stop(self):
         with self.lock:
+            if self.is_running():
+                # the times of the result don't go on after the session.
+                self._times_elapsed = self._get_times_elapsed()
             return super(Profiler, self).stop()
 
+    def _get_times_elapsed(self):
+        cpu_time = max(0, time.clock() - self._cpu_time_started)
+        wall_time = max(0, time.time() - self._wall_time_started)
+        return cpu_time, wall_time
+
     def frame_stack(self, frame):
         return frame_stack(frame, self.base_frame, self.base_code,
                            self.ignored_frames, self.ignored_codes)
@@ -73,11 +85,10 @@ class Profiler(Runnable, Synchronized):
 
     def result(self):
         """Gets the frozen statistics to serialize by Pickle."""
-        try:
-            cpu_time = max(0, time.clock() - self._cpu_time_started)
-            wall_time = max(0, time.time() - self._wall_time_started)
-        except AttributeError:
-            cpu_time = wall_time = 0.0
+        if self.is_running():
+            cpu_time, wall_time = self._get_times_elapsed()
+        else:
+            cpu_time, wall_time = self._times_elapsed
         return self.stats, cpu_time, wall_time
 
     def dump(self, dump_filename, pickle_protocol=pickle.HIGHEST_PROTOCOL):
diff --git a/profiling/tracing/__init__.py b/profiling/tracing/__init__.py
index c03dfb2..72d3889 100644
--- a/profiling/tracing/__init__.py
+++ b/profiling/tracing/__init__.py
@@ -143,7 +143,7 @@ class TracingProfiler(Profiler):
     def result(self):
         base = super(TracingProfiler, self)
         frozen_stats, cpu_time, wall_time = base.result()
-        return (frozen_stats, cpu_time - self.overhead, wall_time)
+        return (frozen_stats, max(0, cpu_time - self.overhead), wall_time)
 
     def run(self):
         if sys.getprofile() is not None:
-- 
2.43.0


From 898e60de4f510b8f2d90d1725099a41fcbe74398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:29 +0000
Subject: [PATCH 13/37] fix: don't run two profiling loops when the clients
 change within an interval

---
 profiling/remote/__init__.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index ab5cb1a..96ef93a 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -127,6 +127,9 @@ class ProfilingServer(object):
 
     _latest_result_data = None
 
+    #: Whether there's a profiling loop.
+    _profiling = False
+
     def __init__(self, profiler, interval=INTERVAL,
                  log=LOG, pickle_protocol=PICKLE_PROTOCOL):
         self.profiler = profiler
@@ -169,6 +172,19 @@ class ProfilingServer(object):
                    time.sleep(self.interval)
 
         """
+        if self._profiling:
+            # the running loop serves also clients which connected after the
+            # last one of the others disconnected.
+            return
+        self._profiling = True
+        try:
+            for x in self._profiling_loop():
+                yield x
+        finally:
+            self._profiling = False
+        self._log_profiler_stopped()
+
+    def _profiling_loop(self):
         self._log_profiler_started()
         while self.clients:
             try:
@@ -194,7 +210,6 @@ class ProfilingServer(object):
             # handle disconnections.
             for client in closed_clients:
                 self.disconnected(client)
-        self._log_profiler_stopped()
 
     def send_msg(self, client, method, msg, pickle_protocol=None):
         if pickle_protocol is None:
-- 
2.43.0


From 1fd61cc4322f573350fab2416b447b2a806f2f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:58 +0000
Subject: [PATCH 14/37] fix: don't broadcast to clients which aren't greeted
 yet or left while it is broadcasting

---
 profiling/remote/__init__.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index 96ef93a..381afc0 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -200,7 +200,10 @@ class ProfilingServer(object):
             self._latest_result_data = data
             # broadcast.
             closed_clients = []
-            for client in self.clients:
+            for client in list(self.clients):
+                if client not in self.clients:
+                    # disconnected meanwhile.
+                    continue
                 try:
                     self._send(client, data)
                 except socket.error as exc:
@@ -219,9 +222,16 @@ class ProfilingServer(object):
 
     def connected(self, client):
         """Call this method when a client connected."""
+        # there may be a context switch while sending.  It doesn't belong to
+        # the clients to broadcast to until it received what's before.
+        self._greet(client)
         self.clients.add(client)
         self._log_connected(client)
         self._start_watching(client)
+        if not self._profiling:
+            self._start_profiling()
+
+    def _greet(self, client):
         self.send_msg(client, WELCOME, (self.pickle_protocol, __version__),
                       pickle_protocol=0)
         profiler = self.profiler
@@ -231,16 +241,10 @@ class ProfilingServer(object):
             except AttributeError:
                 break
         self.send_msg(client, PROFILER, type(profiler))
-        if self._latest_result_data is not None:
-            try:
-                self._send(client, self._latest_result_data)
-            except socket.error as exc:
-                if exc.errno in (EBADF, EPIPE):
-                    self.disconnected(client)
-                    return
-                raise
-        if len(self.clients) == 1:
-            self._start_profiling()
+        data = None
+        while data is not self._latest_result_data:
+            data = self._latest_result_data
+            self._send(client, data)
 
     def disconnected(self, client):
         """Call this method when a client disconnected."""
-- 
2.43.0


From f16116618f4a0cbeec23735043d07d3dd6f92545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:58 +0000
Subject: [PATCH 15/37] fix: drop a client whenever sending to it or receiving
 from it fails

---
 profiling/remote/__init__.py | 18 +++++++++---------
 profiling/remote/gevent.py   |  6 +++++-
 profiling/remote/select.py   | 15 ++++++---------
 3 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index 381afc0..61f7c98 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -12,7 +12,7 @@
 """
 from __future__ import absolute_import
 
-from errno import EBADF, ECONNRESET, EPIPE
+from errno import ECONNRESET
 import functools
 import io
 from logging import getLogger as get_logger
@@ -199,20 +199,16 @@ class ProfilingServer(object):
                             pickle_protocol=self.pickle_protocol)
             self._latest_result_data = data
             # broadcast.
-            closed_clients = []
             for client in list(self.clients):
                 if client not in self.clients:
                     # disconnected meanwhile.
                     continue
                 try:
                     self._send(client, data)
-                except socket.error as exc:
-                    if exc.errno == EPIPE:
-                        closed_clients.append(client)
+                except socket.error:
+                    # nothing can follow an incomplete message.
+                    self.disconnected(client)
             del data
-            # handle disconnections.
-            for client in closed_clients:
-                self.disconnected(client)
 
     def send_msg(self, client, method, msg, pickle_protocol=None):
         if pickle_protocol is None:
@@ -224,7 +220,11 @@ class ProfilingServer(object):
         """Call this method when a client connected."""
         # there may be a context switch while sending.  It doesn't belong to
         # the clients to broadcast to until it received what's before.
-        self._greet(client)
+        try:
+            self._greet(client)
+        except socket.error:
+            self._close(client)
+            return
         self.clients.add(client)
         self._log_connected(client)
         self._start_watching(client)
diff --git a/profiling/remote/gevent.py b/profiling/remote/gevent.py
index aba98ee..993eb19 100644
--- a/profiling/remote/gevent.py
+++ b/profiling/remote/gevent.py
@@ -59,7 +59,11 @@ class GeventProfilingServer(StreamServer, ProfilingServer):
         sock.close()
 
     def _addr(self, sock):
-        return sock.getsockname()
+        try:
+            return sock.getsockname()
+        except socket.error:
+            # closed already.
+            return None
 
     def _start_profiling(self):
         self.profiling_greenlet = gevent.spawn(self.profile_periodically)
diff --git a/profiling/remote/select.py b/profiling/remote/select.py
index 9f7e4b7..8b97268 100644
--- a/profiling/remote/select.py
+++ b/profiling/remote/select.py
@@ -13,7 +13,7 @@
 """
 from __future__ import absolute_import
 
-from errno import ECONNRESET, EINTR, ENOTCONN
+from errno import EINTR
 import select
 import socket
 import time
@@ -43,11 +43,9 @@ class SelectProfilingServer(ProfilingServer):
     def _addr(self, sock):
         try:
             return sock.getpeername()
-        except socket.error as exc:
-            if exc.errno == ENOTCONN:
-                return None
-            else:
-                raise
+        except socket.error:
+            # not connected any more.
+            return None
 
     def _start_profiling(self):
         self.profile_periodically()
@@ -106,7 +104,6 @@ class SelectProfilingServer(ProfilingServer):
             else:
                 try:
                     sock.recv(1)
-                except socket.error as exc:
-                    if exc.errno != ECONNRESET:
-                        raise
+                except socket.error:
+                    pass
                 self.disconnected(sock)
-- 
2.43.0


From 124079f0a7db99d5d9314540f315098ce4eeb223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:58 +0000
Subject: [PATCH 16/37] fix: send messages larger than the send buffer but
 don't wait forever for a client

---
 profiling/remote/gevent.py | 4 +++-
 profiling/remote/select.py | 8 +++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/profiling/remote/gevent.py b/profiling/remote/gevent.py
index 993eb19..f395645 100644
--- a/profiling/remote/gevent.py
+++ b/profiling/remote/gevent.py
@@ -53,7 +53,9 @@ class GeventProfilingServer(StreamServer, ProfilingServer):
         self.profiling_greenlet = None
 
     def _send(self, sock, data):
-        sock.sendall(data)
+        # a client which doesn't receive must not block the others.
+        with gevent.Timeout(self.interval, socket.timeout('timed out')):
+            sock.sendall(data)
 
     def _close(self, sock):
         sock.close()
diff --git a/profiling/remote/select.py b/profiling/remote/select.py
index 8b97268..3034a37 100644
--- a/profiling/remote/select.py
+++ b/profiling/remote/select.py
@@ -35,7 +35,13 @@ class SelectProfilingServer(ProfilingServer):
             self.dispatch_sockets()
 
     def _send(self, sock, data):
-        sock.sendall(data, socket.MSG_DONTWAIT)
+        # the data can be larger than the send buffer but a client which doesn't
+        # receive must not block the others.
+        sock.settimeout(self.interval)
+        try:
+            sock.sendall(data)
+        finally:
+            sock.settimeout(None)
 
     def _close(self, sock):
         sock.close()
-- 
2.43.0


From 793bac3cdc4e9a33f98cb3ded997af0c3e9f35d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:58 +0000
Subject: [PATCH 17/37] fix: make the asyncio server importable and drop its
 disconnected clients

---
 profiling/remote/asyncio.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/profiling/remote/asyncio.py b/profiling/remote/asyncio.py
index b3cd904..319d1e4 100644
--- a/profiling/remote/asyncio.py
+++ b/profiling/remote/asyncio.py
@@ -60,12 +60,12 @@ class AsyncIOProfilingServer(ProfilingServer):
         return writer.get_extra_info('peername')
 
     def _start_profiling(self):
-        asyncio.async(self.profile_periodically())
+        asyncio.ensure_future(self.profile_periodically())
 
     def _start_watching(self, client):
         reader, writer = client
-        disconnected = lambda x: self.disconnected(reader, writer)
-        asyncio.async(reader.read()).add_done_callback(disconnected)
+        disconnected = lambda x: self.disconnected(client)
+        asyncio.ensure_future(reader.read()).add_done_callback(disconnected)
 
     @asyncio.coroutine
     def profile_periodically(self):
-- 
2.43.0


From f28ded83b68db09f8bb6ca59cf6baf0bb2ddbb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:35 +0000
Subject: [PATCH 18/37] fix: let the background thread know that the profiler
 failed to start or stop

---
 profiling/remote/background.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/profiling/remote/background.py b/profiling/remote/background.py
index 09a341b..e7d3865 100644
--- a/profiling/remote/background.py
+++ b/profiling/remote/background.py
@@ -25,6 +25,9 @@ class BackgroundProfiler(ProfilerWrapper):
 
     signum = signal.SIGUSR2
 
+    #: The exception which the wrapped profiler raised at the main thread.
+    _failure = None
+
     def __init__(self, profiler, signum=None):
         super(BackgroundProfiler, self).__init__(profiler)
         if signum is not None:
@@ -45,12 +48,21 @@ class BackgroundProfiler(ProfilerWrapper):
 
     def _send_signal(self):
         self.event.clear()
+        self._failure = None
         os.kill(os.getpid(), self.signum)
         self.event.wait()
+        failure, self._failure = self._failure, None
+        if failure is not None:
+            raise failure
 
     def _signal_handler(self, signum, frame):
-        if self.profiler.is_running():
-            self.profiler.stop()
-        else:
-            self.profiler.start()
-        self.event.set()
+        try:
+            if self.profiler.is_running():
+                self.profiler.stop()
+            else:
+                self.profiler.start()
+        except Exception as exc:
+            # the background thread waits for it.
+            self._failure = exc
+        finally:
+            self.event.set()
-- 
2.43.0


From ada34a78625aa8aeadadbe1ecca32af8d7be3512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:17 +0000
Subject: [PATCH 19/37] fix: receive messages which arrive in several pieces at
 a non-blocking socket

---
 profiling/remote/__init__.py | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index 61f7c98..0558c33 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -12,7 +12,7 @@
 """
 from __future__ import absolute_import
 
-from errno import ECONNRESET
+from errno import EAGAIN, ECONNRESET, EINTR, EWOULDBLOCK
 import functools
 import io
 from logging import getLogger as get_logger
@@ -20,6 +20,8 @@ try:
     import cPickle as pickle
 except ImportError:
     import pickle
+# `profiling.remote.select` becomes an attribute of this module.
+import select as _select
 import socket
 import struct
 
@@ -68,10 +70,31 @@ def pack_msg(method, msg, pickle_protocol=PICKLE_PROTOCOL):
 
 def recv(sock, size):
     """Receives exactly `size` bytes.  This function blocks the thread."""
-    data = sock.recv(size, socket.MSG_WAITALL)
-    if len(data) < size:
-        raise socket.error(ECONNRESET, 'Connection closed')
-    return data
+    chunks = []
+    while size:
+        try:
+            data = sock.recv(size, socket.MSG_WAITALL)
+        except socket.error as exc:
+            if exc.errno not in (EAGAIN, EWOULDBLOCK, EINTR):
+                raise
+            wait_readable(sock)
+            continue
+        if not data:
+            raise socket.error(ECONNRESET, 'Connection closed')
+        # a non-blocking or interrupted socket gives what it already has.
+        chunks.append(data)
+        size -= len(data)
+    return b''.join(chunks)
+
+
+def wait_readable(sock):
+    """Waits until there's something to receive."""
+    try:
+        _select.select([sock], [], [])
+    except _select.error as exc:
+        # the caller retries after an interrupted system call.
+        if exc.args[0] != EINTR:
+            raise
 
 
 def recv_msg(sock):
-- 
2.43.0


From 2f9d89e3d18e6561baf413b6998c2bf2c985fb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 20/37] fix: keep trying to connect to a socket file which
 nobody listens at and close given up sockets

---
 profiling/remote/client.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/profiling/remote/client.py b/profiling/remote/client.py
index b3ce40c..8118221 100644
--- a/profiling/remote/client.py
+++ b/profiling/remote/client.py
@@ -96,9 +96,9 @@ class FailoverProfilingClient(ProfilingClient):
             elif errno == EINPROGRESS:
                 # will be connected.
                 break
-            elif errno == ENOENT:
-                # no such socket file.
-                self.create_connection(self.failover_interval)
+            elif errno in (ECONNREFUSED, ENOENT):
+                # nobody listens at the socket file or there's no such file.
+                self.disconnect(errno)
                 return
             else:
                 raise ValueError('Unexpected socket errno: %d' % errno)
@@ -107,7 +107,8 @@ class FailoverProfilingClient(ProfilingClient):
     def disconnect(self, errno):
         self.sock.close()
         # try to reconnect.
-        delay = self.failover_interval if errno == ECONNREFUSED else 0
+        unavailable = errno in (ECONNREFUSED, ENOENT)
+        delay = self.failover_interval if unavailable else 0
         self.create_connection(delay)
 
     def create_connection(self, delay=0):
-- 
2.43.0


From ddd83ec9f1f3a51aeaf84212a8fb65a7a86401fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 21/37] fix: show the time of the result in the header

---
 profiling/viewer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/profiling/viewer.py b/profiling/viewer.py
index 6388d30..af4e088 100644
--- a/profiling/viewer.py
+++ b/profiling/viewer.py
@@ -478,7 +478,7 @@ class StatisticsTable(urwid.WidgetWrap):
 
     title = None
     stats = None
-    time = None
+    at = None
 
     def __init__(self, viewer):
         self._expanded_stat_hashes = set()
@@ -637,7 +637,7 @@ class StatisticsTable(urwid.WidgetWrap):
         if stats is None:
             return
         title = self.title
-        time = self.time
+        time = self.at
         if title or time:
             if time is not None:
                 time_string = '{:%H:%M:%S}'.format(time)
-- 
2.43.0


From 1c8ffce96cab4648b99f6bae9ed2aa5f190c1755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 22/37] fix: don't fold the invisible root frame

---
 profiling/viewer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/profiling/viewer.py b/profiling/viewer.py
index af4e088..7901ad3 100644
--- a/profiling/viewer.py
+++ b/profiling/viewer.py
@@ -343,6 +343,10 @@ class RootStatisticsWidget(StatisticsWidget):
     def get_mark(self):
         raise TypeError('Statistics widget has no mark')
 
+    def keypress(self, size, key):
+        # the root isn't visible.  Don't fold everything.
+        return key
+
     def update(self):
         pass
 
-- 
2.43.0


From ea3341c4031f6a3dc1ca8eddf2ef9b7262ff803d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 23/37] fix: don't fold the callers of a folded recursive
 function when the result is updated

---
 profiling/viewer.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/profiling/viewer.py b/profiling/viewer.py
index 7901ad3..be73aba 100644
--- a/profiling/viewer.py
+++ b/profiling/viewer.py
@@ -379,10 +379,20 @@ class StatisticsNodeBase(urwid.TreeNode):
     def setup_widget(self, widget):
         if self.table is None:
             return
-        stats = self.get_value()
-        if hash(stats) in self.table._expanded_stat_hashes:
+        if self.get_path() in self.table._expanded_paths:
             widget.expand()
 
+    def get_path(self):
+        """Gets the path to the node.  Each step is a hash of statistics
+        object.
+        """
+        path = deque()
+        node = self
+        while not node.is_root():
+            path.appendleft(hash(node.get_value()))
+            node = node.get_parent()
+        return tuple(path)
+
 
 class NullStatisticsWidget(StatisticsWidget):
 
@@ -485,7 +495,7 @@ class StatisticsTable(urwid.WidgetWrap):
     at = None
 
     def __init__(self, viewer):
-        self._expanded_stat_hashes = set()
+        self._expanded_paths = set()
         self.walker = StatisticsWalker(NullStatisticsNode())
         on(self.walker, 'focus_changed', self._walker_focus_changed)
         tbody = StatisticsListBox(self.walker)
@@ -556,13 +566,8 @@ class StatisticsTable(urwid.WidgetWrap):
         """Gets the path to the focused statistics. Each step is a hash of
         statistics object.
         """
-        path = deque()
         __, node = self.get_focus()
-        while not node.is_root():
-            stats = node.get_value()
-            path.appendleft(hash(stats))
-            node = node.get_parent()
-        return path
+        return node.get_path()
 
     def find_node(self, node, path):
         """Finds a node by the given path from the given node."""
@@ -735,12 +740,10 @@ class StatisticsTable(urwid.WidgetWrap):
         self.update_frame(focus)
 
     def _widget_expanded(self, widget):
-        stats = widget.get_node().get_value()
-        self._expanded_stat_hashes.add(hash(stats))
+        self._expanded_paths.add(widget.get_node().get_path())
 
     def _widget_collapsed(self, widget):
-        stats = widget.get_node().get_value()
-        self._expanded_stat_hashes.discard(hash(stats))
+        self._expanded_paths.discard(widget.get_node().get_path())
 
 
 class StatisticsViewer(object):
-- 
2.43.0


From 87bd0972b58c2b427ed3da7dbd8481ea9c94ee96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 24/37] fix: keep showing the paused result when the profiler
 class changes

---
 profiling/viewer.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/profiling/viewer.py b/profiling/viewer.py
index be73aba..219a82c 100644
--- a/profiling/viewer.py
+++ b/profiling/viewer.py
@@ -789,6 +789,9 @@ class StatisticsViewer(object):
     #: Whether the viewer is paused.
     paused = False
 
+    #: The table class of the current profiler.
+    _table_class = None
+
     def unhandled_input(self, key):
         if key in ('q', 'Q'):
             raise urwid.ExitMainLoop()
@@ -803,9 +806,15 @@ class StatisticsViewer(object):
         return loop
 
     def set_profiler_class(self, profiler_class):
-        table_class = profiler_class.table_class
+        self._table_class = profiler_class.table_class
+        if not self.paused:
+            self.update_table()
+
+    def update_table(self):
+        """Replaces the table if it's not for the current profiler."""
+        table_class = self._table_class
         # NOTE: Don't use isinstance() at the below line.
-        if type(self.table) is table_class:
+        if table_class is None or type(self.table) is table_class:
             return
         self.table = table_class(self)
         self.widget.original_widget = self.table
@@ -851,6 +860,7 @@ class StatisticsViewer(object):
             del self._paused_result
         except AttributeError:
             pass
+        self.update_table()
         self.update_result()
 
 
-- 
2.43.0


From 93709a55baf2249e08668f52b67e11338c951bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 25/37] fix: choose units and precisions of formatted numbers
 by the rounded value

---
 profiling/viewer.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/profiling/viewer.py b/profiling/viewer.py
index 219a82c..d0ebbe3 100644
--- a/profiling/viewer.py
+++ b/profiling/viewer.py
@@ -82,9 +82,9 @@ class Formatter(object):
             ratio /= float(denom)
         except ZeroDivisionError:
             ratio = 0
-        if round(ratio, 2) >= 1:
+        if round(ratio * 100, 1) >= 100:
             precision = 0
-        elif round(ratio, 2) >= 0.1:
+        elif round(ratio * 100, 2) >= 10:
             precision = 1
         else:
             precision = 2
@@ -131,7 +131,7 @@ class Formatter(object):
         # -10: -11
         unit = None
         unit_iter = iter(units)
-        while abs(round(num, 1)) >= 1e3:
+        while abs(round(num, 1 if unit else 0)) >= 1e3:
             num /= 1e3
             try:
                 unit = next(unit_iter)
@@ -188,32 +188,33 @@ class Formatter(object):
         # 12.34567: 12.3sec
         # 123.4567: 2min3s
         # 6120: 102min
+        # the unit depends on the rounded value.  e.g. 0.9996 is not 1000ms.
         if sec == 0:
             return '0'
-        elif sec < 1e-3:
+        elif round(sec * 1e6) < 1e3:
             # 1us ~ 999us
             return '{:.0f}us'.format(sec * 1e6)
-        elif sec < 1:
+        elif round(sec * 1e3) < 1e3:
             # 1ms ~ 999ms
             return '{:.0f}ms'.format(sec * 1e3)
-        elif sec < 60:
+        elif round(sec, 1) < 60:
             # 1.0sec ~ 59.9sec
             return '{:.1f}sec'.format(sec)
-        elif sec < 600:
+        elif round(sec) < 600:
             # 1min0s ~ 9min59s
-            return '{:.0f}m{:.0f}s'.format(sec // 60, sec % 60)
+            return '{:.0f}m{:.0f}s'.format(*divmod(round(sec), 60))
         else:
-            return '{:.0f}m'.format(sec // 60)
+            return '{:.0f}m'.format(round(sec) // 60)
 
     @staticmethod
     def attr_time(sec):
         if sec == 0:
             return 'zero'
-        elif sec < 1e-3:
+        elif round(sec * 1e6) < 1e3:
             return 'usec'
-        elif sec < 1:
+        elif round(sec * 1e3) < 1e3:
             return 'msec'
-        elif sec < 60:
+        elif round(sec, 1) < 60:
             return 'sec'
         else:
             return 'min'
-- 
2.43.0


From a0320506f92f26aa5597fbd120f24c4eb1943f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 26/37] fix: mark the sorted column also while there is no
 result

---
 profiling/viewer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/profiling/viewer.py b/profiling/viewer.py
index d0ebbe3..7665d71 100644
--- a/profiling/viewer.py
+++ b/profiling/viewer.py
@@ -617,6 +617,8 @@ class StatisticsTable(urwid.WidgetWrap):
     def refresh(self):
         stats = self.get_stats()
         if stats is None:
+            # nothing to show but the order may have been changed.
+            self.update_frame()
             return
         if self.layout == FLAT:
             stats = FlatFrozenStatistics.flatten(stats)
-- 
2.43.0


From 9113dcdce4860029b4da1fd20bb5b0557f82f253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 27/37] fix: take the times of a session when its hooks are
 removed

---
 profiling/profiler.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/profiling/profiler.py b/profiling/profiler.py
index b980024..5ab3111 100644
--- a/profiling/profiler.py
+++ b/profiling/profiler.py
@@ -62,10 +62,13 @@ class Profiler(Runnable, Synchronized):
 
     def stop(self):
         with self.lock:
-            if self.is_running():
-                # the times of the result don't go on after the session.
-                self._times_elapsed = self._get_times_elapsed()
-            return super(Profiler, self).stop()
+            running = self.is_running()
+            try:
+                return super(Profiler, self).stop()
+            finally:
+                if running:
+                    # the times of the result don't go on after the session.
+                    self._times_elapsed = self._get_times_elapsed()
 
     def _get_times_elapsed(self):
         cpu_time = max(0, time.clock() - self._cpu_time_started)
-- 
2.43.0


From d5b1df428ebc1af8fafec8c58d804462fb2de6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:07 +0000
Subject: [PATCH 28/37] fix: go to the right caller when it is scrolled out of
 the screen

---
 profiling/viewer.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/profiling/viewer.py b/profiling/viewer.py
index 7665d71..03b7542 100644
--- a/profiling/viewer.py
+++ b/profiling/viewer.py
@@ -469,6 +469,22 @@ class StatisticsListBox(urwid.TreeListBox):
         focus = self.get_focus()
         urwid.emit_signal(self, 'focus_changed', focus)
 
+    def move_focus_to_parent(self, size):
+        # NOTE: The base method goes to a wrong node if the parent is out of
+        # the screen.
+        __, node = self.body.get_focus()
+        parent_node = node.get_parent()
+        if parent_node is None:
+            return
+        middle, top, __ = self.calculate_visible(size)
+        row_offset = middle[0]
+        for __, pos, rows in top[1]:
+            row_offset -= rows
+            if pos is parent_node:
+                self.change_focus(size, parent_node, row_offset)
+                return
+        self.change_focus(size, parent_node)
+
 
 class StatisticsWalker(urwid.TreeWalker):
 
-- 
2.43.0


From 2740564709257b6a108aa1fcf16e145dfc5a01b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:11 +0000
Subject: [PATCH 29/37] fix: accept fractions of a second as configured
 interval

The default interval is an integer so that the setting was read as an integer:
'interval = 0.5' in setup.cfg failed while '--interval 0.5' is fine.
---
 profiling/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 418a9b6..28744a8 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -514,7 +514,7 @@ onetime_profiler_options = Params([
 live_profiler_options = Params([
     click.option(
         '-i', '--interval', type=float,
-        default=config_default('interval', remote.INTERVAL),
+        default=config_default('interval', remote.INTERVAL, float),
         help='How often update result. (default: %.0f sec)' % remote.INTERVAL),
     click.option(
         '--spawn', type=click.Choice(spawn.modes),
-- 
2.43.0


From 531e14be4e97ac4479619bac90036b5b995a3cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:11 +0000
Subject: [PATCH 30/37] fix: reject malformed endpoints and viewer sources as
 usage errors

They ended the command with the traceback of a ValueError.
---
 profiling/__main__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 28744a8..133b734 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -342,8 +342,11 @@ class Endpoint(click.ParamType):
     """A parameter type for IP endpoint."""
 
     def convert(self, value, param, ctx):
-        host, port = value.split(':')
-        port = int(port)
+        try:
+            host, port = value.split(':')
+            port = int(port)
+        except ValueError:
+            self.fail('Invalid endpoint %s' % value)
         return (host, port)
 
     def get_metavar(self, param):
@@ -361,7 +364,7 @@ class ViewerSource(click.ParamType):
         except OSError:
             try:
                 src_name = Endpoint().convert(value, param, ctx)
-            except ValueError:
+            except click.BadParameter:
                 pass
             else:
                 src_type = 'tcp'
@@ -372,7 +375,7 @@ class ViewerSource(click.ParamType):
             elif S_ISREG(mode):
                 src_type = 'dump'
         if not src_type:
-            raise ValueError('Dump file or socket address required.')
+            self.fail('Dump file or socket address required.')
         return (src_type, src_name)
 
     def get_metavar(self, param):
-- 
2.43.0


From 4a40658f7fc5e1c0c84a3ab151cc512990d09b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:11 +0000
Subject: [PATCH 31/37] fix: dump to the given file also if the script changes
 the directory

---
 profiling/__main__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 133b734..e4eca9d 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -540,6 +540,9 @@ live_profiler_options = Params([
 def __profile__(filename, code, globals_, profiler_factory,
                 pickle_protocol=remote.PICKLE_PROTOCOL, dump_filename=None,
                 mono=False):
+    if dump_filename is not None:
+        # the program may change the working directory.
+        dump_path = os.path.abspath(dump_filename)
     frame = sys._getframe()
     profiler = profiler_factory(base_frame=frame, base_code=code)
     profiler.start()
@@ -559,7 +562,7 @@ def __profile__(filename, code, globals_, profiler_factory,
         except KeyboardInterrupt:
             pass
     else:
-        profiler.dump(dump_filename, pickle_protocol)
+        profiler.dump(dump_path, pickle_protocol)
 
         click.echo('To view statistics:')
         click.echo('  $ profiling view ', nl=False)
-- 
2.43.0


From f1d7327d4d44b21cc8d1950058d978ae89a7a5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:11 +0000
Subject: [PATCH 32/37] fix: repeat all lines of the statement of
 timeit-profile

Just the first line was repeated, and a compound statement was a syntax error.
---
 profiling/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index e4eca9d..0b99dcd 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -767,8 +767,8 @@ def timeit_profile(stmt, number, repeat, setup,
                 break
         dummy_profiler.stop()
         del dummy_profiler
-    code = compile('for _ in range(%d): %s' % (number, stmt),
-                   'STATEMENT', 'exec')
+    code = compile('for _ in range(%d):\n %s' %
+                   (number, stmt.replace('\n', '\n ')), 'STATEMENT', 'exec')
     __profile__(stmt, code, globals_, profiler_factory,
                 pickle_protocol=pickle_protocol, dump_filename=dump_filename,
                 mono=mono)
-- 
2.43.0


From a16faa88321d217771bf16c72acc42bbb742a38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:18 +0000
Subject: [PATCH 33/37] fix: close the other end of the socket in both
 processes of live-profile

The viewer didn't notice when the child process died without shutting down its
end, and the child didn't notice when the viewer died, because each of them held
also the end of the other.
---
 profiling/__main__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 0b99dcd..dd10446 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -611,6 +611,7 @@ def live_profile(script, argv, profiler_factory, interval, spawn, signum,
     if pid:
         # parent
         os.close(stderr_w_fd)
+        child_sock.close()
         viewer, loop = make_viewer(mono)
         # loop.screen._term_output_file = open(os.devnull, 'w')
         title = get_title(filename)
@@ -642,6 +643,7 @@ def live_profile(script, argv, profiler_factory, interval, spawn, signum,
     else:
         # child
         os.close(stderr_r_fd)
+        parent_sock.close()
         # mute stdin, stdout.
         devnull = os.open(os.devnull, os.O_RDWR)
         for f in [sys.stdin, sys.stdout]:
@@ -660,7 +662,11 @@ def live_profile(script, argv, profiler_factory, interval, spawn, signum,
             exec_(code, globals_)
         finally:
             os.close(stderr_w_fd)
-            child_sock.shutdown(socket.SHUT_WR)
+            try:
+                child_sock.shutdown(socket.SHUT_WR)
+            except socket.error:
+                # the viewer has gone already.
+                pass
 
 
 @cli.command('remote-profile', aliases=['remote'], cls=ProfilingCommand)
-- 
2.43.0


From 000ed3d8f80e69982d86732dc6db262bdd806e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:18 +0000
Subject: [PATCH 34/37] fix: reap the child process of live-profile and take
 its exit code

A child which ended itself while the viewer was closing was taken for one which
succeeded, and was left as a zombie.
---
 profiling/__main__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index dd10446..89c702d 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -631,13 +631,16 @@ def live_profile(script, argv, profiler_factory, interval, spawn, signum,
         w_pid, status = os.waitpid(pid, os.WNOHANG)
         if w_pid == 0:
             os.kill(pid, signal.SIGTERM)
-        exit_code = os.WEXITSTATUS(status)
         # print stderr of child.
         with os.fdopen(stderr_r_fd, 'r') as f:
             child_stderr = f.read()
         if child_stderr:
             sys.stdout.flush()
             sys.stderr.write(child_stderr)
+        if w_pid == 0:
+            # it may have ended by itself meanwhile.
+            w_pid, status = os.waitpid(pid, 0)
+        exit_code = os.WEXITSTATUS(status)
         # exit with exit code of child.
         sys.exit(exit_code)
     else:
-- 
2.43.0


From b02b11faa8c7c2b86028477adc62a3d75225cbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:16 +0000
Subject: [PATCH 35/37] fix: live-profile blocked scripts which write much to
 stderr

---
 profiling/__main__.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 89c702d..6112bac 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -194,6 +194,12 @@ def spawn_thread(func, *args, **kwargs):
     return thread
 
 
+def read_text(fd, texts):
+    """Reads from a file descriptor until the end."""
+    with os.fdopen(fd, 'r') as f:
+        texts.append(f.read())
+
+
 def spawn(mode, func, *args, **kwargs):
     """Spawns a thread-like object which runs the given function concurrently.
 
@@ -617,6 +623,10 @@ def live_profile(script, argv, profiler_factory, interval, spawn, signum,
         title = get_title(filename)
         client = ProfilingClient(viewer, loop.event_loop, parent_sock, title)
         client.start()
+        # keep on reading stderr of child.  otherwise the child would be
+        # blocked as soon as the pipe is full.
+        child_stderr = []
+        stderr_reader = spawn_thread(read_text, stderr_r_fd, child_stderr)
         try:
             loop.run()
         except KeyboardInterrupt:
@@ -632,11 +642,10 @@ def live_profile(script, argv, profiler_factory, interval, spawn, signum,
         if w_pid == 0:
             os.kill(pid, signal.SIGTERM)
         # print stderr of child.
-        with os.fdopen(stderr_r_fd, 'r') as f:
-            child_stderr = f.read()
-        if child_stderr:
+        stderr_reader.join()
+        if any(child_stderr):
             sys.stdout.flush()
-            sys.stderr.write(child_stderr)
+            sys.stderr.write(''.join(child_stderr))
         if w_pid == 0:
             # it may have ended by itself meanwhile.
             w_pid, status = os.waitpid(pid, 0)
-- 
2.43.0


From 2927db312e72de32cc77796c9d6e0caa5ac578db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:16 +0000
Subject: [PATCH 36/37] fix: live-profile failed by stderr of the script which
 isn't text

---
 profiling/__main__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 6112bac..a8e6b8e 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -194,10 +194,10 @@ def spawn_thread(func, *args, **kwargs):
     return thread
 
 
-def read_text(fd, texts):
+def read_fd(fd, chunks):
     """Reads from a file descriptor until the end."""
-    with os.fdopen(fd, 'r') as f:
-        texts.append(f.read())
+    with os.fdopen(fd, 'rb') as f:
+        chunks.append(f.read())
 
 
 def spawn(mode, func, *args, **kwargs):
@@ -626,7 +626,7 @@ def live_profile(script, argv, profiler_factory, interval, spawn, signum,
         # keep on reading stderr of child.  otherwise the child would be
         # blocked as soon as the pipe is full.
         child_stderr = []
-        stderr_reader = spawn_thread(read_text, stderr_r_fd, child_stderr)
+        stderr_reader = spawn_thread(read_fd, stderr_r_fd, child_stderr)
         try:
             loop.run()
         except KeyboardInterrupt:
@@ -641,11 +641,11 @@ def live_profile(script, argv, profiler_factory, interval, spawn, signum,
         w_pid, status = os.waitpid(pid, os.WNOHANG)
         if w_pid == 0:
             os.kill(pid, signal.SIGTERM)
-        # print stderr of child.
+        # print stderr of child as it is.
         stderr_reader.join()
         if any(child_stderr):
             sys.stdout.flush()
-            sys.stderr.write(''.join(child_stderr))
+            click.echo(b''.join(child_stderr), nl=False, err=True)
         if w_pid == 0:
             # it may have ended by itself meanwhile.
             w_pid, status = os.waitpid(pid, 0)
-- 
2.43.0


From b2bb87f2d980047e2c838cd8dd080cdc6a8fa0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:40 +0000
Subject: [PATCH 37/37] fix: ignore profiling signals which arrive while a
 sample is being taken

A slow sample was interrupted by the next signal: functions of the profiler
appeared in the result, or the sample of the interrupted one was lost.
---
 profiling/sampling/samplers.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/profiling/sampling/samplers.py b/profiling/sampling/samplers.py
index b50a084..8e80d30 100644
--- a/profiling/sampling/samplers.py
+++ b/profiling/sampling/samplers.py
@@ -44,8 +44,18 @@ class ItimerSampler(Sampler):
 
     """
 
+    #: Whether a signal is being handled.
+    _handling = False
+
     def handle_signal(self, profiler, signum, frame):
-        profiler.sample(frame)
+        if self._handling:
+            # the frame belongs to the profiler, not to the program.
+            return
+        try:
+            self._handling = True
+            profiler.sample(frame)
+        finally:
+            self._handling = False
 
     def run(self, profiler):
         weak_profiler = weakref.proxy(profiler)
-- 
2.43.0

