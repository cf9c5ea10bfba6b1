From d72453783615314a678c206d1ba471898d4e7892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:01 +0000
Subject: [PATCH 01/31] fix: record calls and samples of a function first seen
 as an absent frame

VoidRecordingStatistics ignores own_hits and deep_time, but ensure_child()
kept returning it after the function had been called or sampled itself, so
those calls and samples were lost.
---
 profiling/stats.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/profiling/stats.py b/profiling/stats.py
index 525c513..ee9fb77 100644
--- a/profiling/stats.py
+++ b/profiling/stats.py
@@ -251,10 +251,18 @@ class RecordingStatistics(Statistics):
 
     def ensure_child(self, code, adding_stat_class=None):
         stats = self._children.get(code)
+        stat_class = adding_stat_class or type(self)
         if stats is None:
-            stat_class = adding_stat_class or type(self)
             stats = stat_class(code)
             self.add_child(code, stats)
+        elif (isinstance(stats, VoidRecordingStatistics) and
+              not issubclass(stat_class, VoidRecordingStatistics)):
+            # the absent frame turns out to be recorded.  void statistics
+            # ignore hits and time, so take over what is below it.
+            void, stats = stats, stat_class(code)
+            stats.deep_time = void.deep_time
+            stats._children = void._children
+            self.add_child(code, stats)
         return stats
 
     def clear(self):
-- 
2.43.0


From a387fdb57ccbaa5e678638c4bce59872a0e267cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:43 +0000
Subject: [PATCH 02/31] fix: do not charge bookkeeping at a return to the
 caller

The time spent in frame_stack() while handling a "return" event was
subtracted from the elapsed time of the returning function, because the
overhead already contained it.
---
 profiling/tracing/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profiling/tracing/__init__.py b/profiling/tracing/__init__.py
index 2a1870b..cb108fe 100644
--- a/profiling/tracing/__init__.py
+++ b/profiling/tracing/__init__.py
@@ -102,7 +102,7 @@ class TracingProfiler(Profiler):
             time = time2 - self.overhead
             self.record_entering(time, code, frame_key, parent_stats)
         elif event == 'return':
-            time = time1 - self.overhead
+            time = time2 - self.overhead
             self.record_leaving(time, code, frame_key, parent_stats)
         time3 = self.timer()
         self.overhead += time3 - time2
-- 
2.43.0


From c991c568e7d157b9ac83a68bf12fc23bcdb9f078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:43 +0000
Subject: [PATCH 03/31] fix: do not record ignored frames under a wrong caller

When the running frame itself is ignored, it is not in the frame stack, so
frames.pop() dropped its caller instead and the ignored code was recorded
one level too high.
---
 profiling/profiler.py          | 5 +++++
 profiling/sampling/__init__.py | 5 +++++
 profiling/tracing/__init__.py  | 2 ++
 3 files changed, 12 insertions(+)

diff --git a/profiling/profiler.py b/profiling/profiler.py
index eee0e86..45aedf5 100644
--- a/profiling/profiler.py
+++ b/profiling/profiler.py
@@ -55,6 +55,11 @@ class Profiler(Runnable):
         return frame_stack(frame, self.base_frame, self.base_code,
                            self.ignored_frames, self.ignored_codes)
 
+    def is_ignored(self, frame):
+        """Whether the given frame itself should not be profiled."""
+        return (frame in self.ignored_frames or
+                frame.f_code in self.ignored_codes)
+
     def exclude_code(self, code):
         """Excludes statistics of the given code."""
         try:
diff --git a/profiling/sampling/__init__.py b/profiling/sampling/__init__.py
index d13e851..edbc823 100644
--- a/profiling/sampling/__init__.py
+++ b/profiling/sampling/__init__.py
@@ -64,6 +64,11 @@ class SamplingProfiler(Profiler):
 
     def sample(self, frame):
         """Samples the given frame."""
+        # a sample of an ignored frame belongs to the caller.
+        while frame is not None and self.is_ignored(frame):
+            frame = frame.f_back
+        if frame is None:
+            return
         frames = self.frame_stack(frame)
         if frames:
             frames.pop()
diff --git a/profiling/tracing/__init__.py b/profiling/tracing/__init__.py
index cb108fe..508c072 100644
--- a/profiling/tracing/__init__.py
+++ b/profiling/tracing/__init__.py
@@ -82,6 +82,8 @@ class TracingProfiler(Profiler):
         # c = event.startswith('c_')
         if event.startswith('c_'):
             return
+        if self.is_ignored(frame):
+            return
         time1 = self.timer()
         frames = self.frame_stack(frame)
         if frames:
-- 
2.43.0


From 27b29eeb8f5e77abd3a1a5007c9451b6cebd0f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 04/31] fix: dump and view the wrapped profiler through a
 ProfilerWrapper

dump() and make_viewer() used the wrapper's class, whose table_class is a
property, so a result dumped through a BackgroundProfiler could not be viewed.
---
 profiling/profiler.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/profiling/profiler.py b/profiling/profiler.py
index 45aedf5..414429d 100644
--- a/profiling/profiler.py
+++ b/profiling/profiler.py
@@ -128,3 +128,10 @@ class ProfilerWrapper(Profiler):
 
     def __init__(self, profiler):
         self.profiler = profiler
+
+    def dump(self, *args, **kwargs):
+        # the class to be saved is the one of the actual profiler.
+        return self.profiler.dump(*args, **kwargs)
+
+    def make_viewer(self, *args, **kwargs):
+        return self.profiler.make_viewer(*args, **kwargs)
-- 
2.43.0


From 2a33f9dbdc23260782d96c612cc8e099db14963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:28 +0000
Subject: [PATCH 05/31] fix: sort statistics without a name or module

None cannot be compared with str in Python 3, so sorting by name, module or
function raised TypeError as soon as one of the entries had none.
---
 profiling/sortkeys.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/profiling/sortkeys.py b/profiling/sortkeys.py
index 019ba89..124f7fb 100644
--- a/profiling/sortkeys.py
+++ b/profiling/sortkeys.py
@@ -30,13 +30,13 @@ class SortKey(object):
 
 
 #: Sorting by name in ascending order.
-by_name = SortKey(lambda stat: stat.name)
+by_name = SortKey(lambda stat: stat.name or '')
 
 #: Sorting by module in ascending order.
-by_module = SortKey(lambda stat: stat.module)
+by_module = SortKey(lambda stat: stat.module or '')
 
 #: Sorting by module and name in ascending order.
-by_function = SortKey(lambda stat: (stat.module, stat.name))
+by_function = SortKey(lambda stat: (stat.module or '', stat.name or ''))
 
 #: Sorting by number of inclusive hits in descending order.
 by_deep_hits = SortKey(lambda stat: -stat.deep_hits)
-- 
2.43.0


From 45aa85ed2162fdd2e098a968a1c0c85baf51d79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:28 +0000
Subject: [PATCH 06/31] fix: invert sort keys which are not numbers

The unary minus is not defined for the texts and tuples most of the sort keys
return.
---
 profiling/sortkeys.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/profiling/sortkeys.py b/profiling/sortkeys.py
index 124f7fb..e987dd2 100644
--- a/profiling/sortkeys.py
+++ b/profiling/sortkeys.py
@@ -15,6 +15,26 @@ __all__ = ['by_name', 'by_module', 'by_deep_hits', 'by_own_hits',
            'by_own_time_per_call']
 
 
+class inverted(object):
+    """Wraps a value to be compared in the opposite order."""
+
+    __slots__ = ('value',)
+
+    def __init__(self, value):
+        self.value = value
+
+    def __eq__(self, other):
+        return self.value == other.value
+
+    def __ne__(self, other):
+        return not self == other
+
+    def __lt__(self, other):
+        return other.value < self.value
+
+    __hash__ = None
+
+
 class SortKey(object):
 
     def __init__(self, func):
@@ -26,7 +46,7 @@ class SortKey(object):
 
     def __invert__(self):
         cls = type(self)
-        return cls(lambda stat: -self.func(stat))
+        return cls(lambda stat: inverted(self.func(stat)))
 
 
 #: Sorting by name in ascending order.
-- 
2.43.0


From dd68eb6df92fe274226a0d13f35b2d6bc299a7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:58 +0000
Subject: [PATCH 07/31] fix: a failed start leaves the runnable stopped

---
 profiling/utils.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/profiling/utils.py b/profiling/utils.py
index 5f69fff..a4260e2 100644
--- a/profiling/utils.py
+++ b/profiling/utils.py
@@ -44,13 +44,19 @@ class Runnable(object):
         """
         if self.is_running():
             raise RuntimeError('Already started')
-        self._running = self.run(*args, **kwargs)
+        running = self._running = self.run(*args, **kwargs)
         try:
-            yielded = next(self._running)
-        except StopIteration:
-            raise TypeError('run() must yield just one time')
-        if yielded is not None:
-            raise TypeError('run() must yield without value')
+            try:
+                yielded = next(running)
+            except StopIteration:
+                raise TypeError('run() must yield just one time')
+            if yielded is not None:
+                raise TypeError('run() must yield without value')
+        except BaseException:
+            # failed to start.
+            self._running = None
+            running.close()
+            raise
 
     def stop(self):
         """Stops the instance.
-- 
2.43.0


From c39849be776be3699365e3457eb9444c8b5382b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 08/31] fix: starting a running profiler does not discard what
 it recorded

---
 profiling/profiler.py        | 3 +++
 profiling/remote/__init__.py | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/profiling/profiler.py b/profiling/profiler.py
index 414429d..f60aebc 100644
--- a/profiling/profiler.py
+++ b/profiling/profiler.py
@@ -46,6 +46,9 @@ class Profiler(Runnable):
         self.stats = RecordingStatistics()
 
     def start(self):
+        if self.is_running():
+            # don't lose what is being recorded.
+            raise RuntimeError('Already started')
         self._cpu_time_started = time.clock()
         self._wall_time_started = time.time()
         self.stats.clear()
diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index ab5cb1a..47a9695 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -177,7 +177,11 @@ class ProfilingServer(object):
                 pass
             # should sleep.
             yield
-            self.profiler.stop()
+            try:
+                self.profiler.stop()
+            except RuntimeError:
+                # it could not be started.
+                pass
             result = self.profiler.result()
             data = pack_msg(RESULT, result,
                             pickle_protocol=self.pickle_protocol)
-- 
2.43.0


From bc1bf156e4131d2734055f37da0e24b2ae5e44e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:49 +0000
Subject: [PATCH 09/31] fix: call every deferred function even if one of them
 fails

---
 profiling/utils.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/profiling/utils.py b/profiling/utils.py
index a4260e2..cc21425 100644
--- a/profiling/utils.py
+++ b/profiling/utils.py
@@ -154,9 +154,18 @@ def deferral():
     try:
         yield defer
     finally:
-        while deferred:
-            f, a, k = deferred.pop()
-            f(*a, **k)
+        _call_deferred(deferred)
+
+
+def _call_deferred(deferred):
+    if not deferred:
+        return
+    f, a, k = deferred.pop()
+    try:
+        f(*a, **k)
+    finally:
+        # the others should be called even if this one failed.
+        _call_deferred(deferred)
 
 
 if sys.version_info < (3, 3):
-- 
2.43.0


From f6e6a1c942c260ffd035fecb0b19f769beea7ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:16 +0000
Subject: [PATCH 10/31] fix: CPU time after a refused start is not negative

---
 profiling/tracing/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/profiling/tracing/__init__.py b/profiling/tracing/__init__.py
index 508c072..d3d75c3 100644
--- a/profiling/tracing/__init__.py
+++ b/profiling/tracing/__init__.py
@@ -131,14 +131,14 @@ class TracingProfiler(Profiler):
         return (frozen_stats, cpu_time - self.overhead, wall_time)
 
     def run(self):
+        self._times_entered.clear()
+        self.overhead = 0.0
         if sys.getprofile() is not None:
             # NOTE: There's no threading.getprofile().
             # The profiling function will be stored at threading._profile_hook
             # but it's not documented.
             raise RuntimeError('Another profiler already registered')
         with deferral() as defer:
-            self._times_entered.clear()
-            self.overhead = 0.0
             sys.setprofile(self._profile)
             defer(sys.setprofile, None)
             threading.setprofile(self._profile)
-- 
2.43.0


From 8b3feeb20f2c01d5ea92303d1fcf8d8107a95ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 11/31] fix: resuming a running context does not lose its time

---
 profiling/tracing/timers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/profiling/tracing/timers.py b/profiling/tracing/timers.py
index a61396a..18d4a22 100644
--- a/profiling/tracing/timers.py
+++ b/profiling/tracing/timers.py
@@ -53,7 +53,9 @@ class ContextualTimer(Timer):
     def resume(self, context=None):
         if context is None:
             context = self.detect_context()
-        paused_at, __ = self._contextual_times.get(context, (0, 0))
+        paused_at, resumed_at = self._contextual_times.get(context, (0, None))
+        if resumed_at is not None:  # already running
+            return
         self._contextual_times[context] = (paused_at, self.clock())
 
     def detect_context(self):
-- 
2.43.0


From 466678542c2999d4bf5c3b2027101cdc5e240e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:41 +0000
Subject: [PATCH 12/31] fix: charge the running greenlet from the start of the
 greenlet timer

---
 profiling/tracing/timers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/profiling/tracing/timers.py b/profiling/tracing/timers.py
index 18d4a22..9dbbae3 100644
--- a/profiling/tracing/timers.py
+++ b/profiling/tracing/timers.py
@@ -90,6 +90,11 @@ class GreenletTimer(ContextualTimer):
         self.resume(id(target))
 
     def run(self, profiler):
+        if self.detect_context() in self._contextual_times:
+            # it may have been left paused by the last run.
+            self.resume()
         self.greenlet.settrace(self._trace)
         yield
         self.greenlet.settrace(None)
+        # switches are not traced any more.
+        self.pause()
-- 
2.43.0


From 1aaeeaeeff384000b0d74cee8bd7ebf73e361d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:03 +0000
Subject: [PATCH 13/31] fix: forget dead threads instead of living ones

---
 profiling/sampling/samplers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/profiling/sampling/samplers.py b/profiling/sampling/samplers.py
index 4c4a288..1dfd3bb 100644
--- a/profiling/sampling/samplers.py
+++ b/profiling/sampling/samplers.py
@@ -98,7 +98,8 @@ class TracingSampler(Sampler):
             self._clear_for_dead_threads()
 
     def _clear_for_dead_threads(self):
-        for thread_id in sys._current_frames().keys():
+        dead_thread_ids = set(self.sampled_times) - set(sys._current_frames())
+        for thread_id in dead_thread_ids:
             self.sampled_times.pop(thread_id, None)
 
     def run(self, profiler):
-- 
2.43.0


From d427cf71041b7ae0501629136d683b043c72a986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:10 +0000
Subject: [PATCH 14/31] fix: sample a thread which has got the id of a dead
 thread

---
 profiling/sampling/samplers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/profiling/sampling/samplers.py b/profiling/sampling/samplers.py
index 1dfd3bb..274f3a5 100644
--- a/profiling/sampling/samplers.py
+++ b/profiling/sampling/samplers.py
@@ -89,6 +89,10 @@ class TracingSampler(Sampler):
         t = thread_clock()
         thread_id = _thread.get_ident()
         sampled_at = self.sampled_times.get(thread_id, 0)
+        if t < sampled_at:
+            # a new thread has got the id of a dead thread.
+            del self.sampled_times[thread_id]
+            sampled_at = 0
         if t - sampled_at < self.interval:
             return
         self.sampled_times[thread_id] = t
-- 
2.43.0


From d9b446a89ae074abc36e9fce2a7b3f4dadc97081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:47 +0000
Subject: [PATCH 15/31] fix: receive the whole message when it arrives in
 pieces

---
 profiling/remote/__init__.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index 47a9695..d8bfddb 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -12,7 +12,7 @@
 """
 from __future__ import absolute_import
 
-from errno import EBADF, ECONNRESET, EPIPE
+from errno import EAGAIN, EBADF, ECONNRESET, EPIPE, EWOULDBLOCK
 import functools
 import io
 from logging import getLogger as get_logger
@@ -20,6 +20,7 @@ try:
     import cPickle as pickle
 except ImportError:
     import pickle
+import select as _select
 import socket
 import struct
 
@@ -68,9 +69,20 @@ def pack_msg(method, msg, pickle_protocol=PICKLE_PROTOCOL):
 
 def recv(sock, size):
     """Receives exactly `size` bytes.  This function blocks the thread."""
-    data = sock.recv(size, socket.MSG_WAITALL)
-    if len(data) < size:
-        raise socket.error(ECONNRESET, 'Connection closed')
+    data = b''
+    while len(data) < size:
+        # MSG_WAITALL doesn't guarantee that all of the bytes are received.  For
+        # example, it has no effect on a non-blocking socket.
+        try:
+            chunk = sock.recv(size - len(data), socket.MSG_WAITALL)
+        except socket.error as exc:
+            if exc.errno not in (EAGAIN, EWOULDBLOCK):
+                raise
+            _select.select([sock], (), ())
+            continue
+        if not chunk:
+            raise socket.error(ECONNRESET, 'Connection closed')
+        data += chunk
     return data
 
 
-- 
2.43.0


From ae8284285e5b7cdcacd196d8a3e1817cbda8d279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:07 +0000
Subject: [PATCH 16/31] fix: do not start a profiling loop while another one is
 running

---
 profiling/remote/__init__.py | 65 ++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 28 deletions(-)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index d8bfddb..646e6ac 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -139,6 +139,9 @@ class ProfilingServer(object):
 
     _latest_result_data = None
 
+    #: Whether a profiling loop has been started and not finished yet.
+    _profiling = False
+
     def __init__(self, profiler, interval=INTERVAL,
                  log=LOG, pickle_protocol=PICKLE_PROTOCOL):
         self.profiler = profiler
@@ -181,35 +184,39 @@ class ProfilingServer(object):
                    time.sleep(self.interval)
 
         """
+        self._profiling = True
         self._log_profiler_started()
-        while self.clients:
-            try:
-                self.profiler.start()
-            except RuntimeError:
-                pass
-            # should sleep.
-            yield
-            try:
-                self.profiler.stop()
-            except RuntimeError:
-                # it could not be started.
-                pass
-            result = self.profiler.result()
-            data = pack_msg(RESULT, result,
-                            pickle_protocol=self.pickle_protocol)
-            self._latest_result_data = data
-            # broadcast.
-            closed_clients = []
-            for client in self.clients:
+        try:
+            while self.clients:
+                try:
+                    self.profiler.start()
+                except RuntimeError:
+                    pass
+                # should sleep.
+                yield
                 try:
-                    self._send(client, data)
-                except socket.error as exc:
-                    if exc.errno == EPIPE:
-                        closed_clients.append(client)
-            del data
-            # handle disconnections.
-            for client in closed_clients:
-                self.disconnected(client)
+                    self.profiler.stop()
+                except RuntimeError:
+                    # it could not be started.
+                    pass
+                result = self.profiler.result()
+                data = pack_msg(RESULT, result,
+                                pickle_protocol=self.pickle_protocol)
+                self._latest_result_data = data
+                # broadcast.
+                closed_clients = []
+                for client in self.clients:
+                    try:
+                        self._send(client, data)
+                    except socket.error as exc:
+                        if exc.errno == EPIPE:
+                            closed_clients.append(client)
+                del data
+                # handle disconnections.
+                for client in closed_clients:
+                    self.disconnected(client)
+        finally:
+            self._profiling = False
         self._log_profiler_stopped()
 
     def send_msg(self, client, method, msg, pickle_protocol=None):
@@ -240,7 +247,9 @@ class ProfilingServer(object):
                     self.disconnected(client)
                     return
                 raise
-        if len(self.clients) == 1:
+        if not self._profiling:
+            # a loop survives if the last client has left just before.
+            self._profiling = True
             self._start_profiling()
 
     def disconnected(self, client):
-- 
2.43.0


From d4a60115227e31a3d5e0a12b65e89b370d4af764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:33 +0000
Subject: [PATCH 17/31] fix: a client which fails does not stop the server or
 the others

---
 profiling/remote/__init__.py | 39 +++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index 646e6ac..cf75708 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -12,7 +12,7 @@
 """
 from __future__ import absolute_import
 
-from errno import EAGAIN, EBADF, ECONNRESET, EPIPE, EWOULDBLOCK
+from errno import EAGAIN, ECONNRESET, EWOULDBLOCK
 import functools
 import io
 from logging import getLogger as get_logger
@@ -203,18 +203,10 @@ class ProfilingServer(object):
                 data = pack_msg(RESULT, result,
                                 pickle_protocol=self.pickle_protocol)
                 self._latest_result_data = data
-                # broadcast.
-                closed_clients = []
-                for client in self.clients:
-                    try:
-                        self._send(client, data)
-                    except socket.error as exc:
-                        if exc.errno == EPIPE:
-                            closed_clients.append(client)
+                # broadcast.  clients may come or go while sending.
+                for client in list(self.clients):
+                    self._try_send(client, data)
                 del data
-                # handle disconnections.
-                for client in closed_clients:
-                    self.disconnected(client)
         finally:
             self._profiling = False
         self._log_profiler_stopped()
@@ -223,7 +215,18 @@ class ProfilingServer(object):
         if pickle_protocol is None:
             pickle_protocol = self.pickle_protocol
         data = pack_msg(method, msg, pickle_protocol=pickle_protocol)
-        self._send(client, data)
+        self._try_send(client, data)
+
+    def _try_send(self, client, data):
+        """Sends data to the client unless it has left.  A client which failed
+        to receive the whole data is not able to receive anything more.
+        """
+        if client not in self.clients:
+            return
+        try:
+            self._send(client, data)
+        except socket.error:
+            self.disconnected(client)
 
     def connected(self, client):
         """Call this method when a client connected."""
@@ -240,14 +243,8 @@ class ProfilingServer(object):
                 break
         self.send_msg(client, PROFILER, type(profiler))
         if self._latest_result_data is not None:
-            try:
-                self._send(client, self._latest_result_data)
-            except socket.error as exc:
-                if exc.errno in (EBADF, EPIPE):
-                    self.disconnected(client)
-                    return
-                raise
-        if not self._profiling:
+            self._try_send(client, self._latest_result_data)
+        if self.clients and not self._profiling:
             # a loop survives if the last client has left just before.
             self._profiling = True
             self._start_profiling()
-- 
2.43.0


From 3f20e2a806077fe3cc4a17bf89ecf4407793a6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:04 +0000
Subject: [PATCH 18/31] fix: greet a client before it takes part in
 broadcasting

---
 profiling/remote/__init__.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index cf75708..eb90ec3 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -149,6 +149,8 @@ class ProfilingServer(object):
         self.log = log
         self.pickle_protocol = pickle_protocol
         self.clients = set()
+        #: The clients which have not received the latest result yet.
+        self._greeting = set()
 
     @abstract('Implement serve_forever() to run a server synchronously.')
     def serve_forever(self):
@@ -204,7 +206,7 @@ class ProfilingServer(object):
                                 pickle_protocol=self.pickle_protocol)
                 self._latest_result_data = data
                 # broadcast.  clients may come or go while sending.
-                for client in list(self.clients):
+                for client in self.clients.difference(self._greeting):
                     self._try_send(client, data)
                 del data
         finally:
@@ -231,6 +233,7 @@ class ProfilingServer(object):
     def connected(self, client):
         """Call this method when a client connected."""
         self.clients.add(client)
+        self._greeting.add(client)
         self._log_connected(client)
         self._start_watching(client)
         self.send_msg(client, WELCOME, (self.pickle_protocol, __version__),
@@ -242,8 +245,12 @@ class ProfilingServer(object):
             except AttributeError:
                 break
         self.send_msg(client, PROFILER, type(profiler))
-        if self._latest_result_data is not None:
-            self._try_send(client, self._latest_result_data)
+        latest_data = None
+        while latest_data is not self._latest_result_data:
+            # there may be a newer one after sending.
+            latest_data = self._latest_result_data
+            self._try_send(client, latest_data)
+        self._greeting.discard(client)
         if self.clients and not self._profiling:
             # a loop survives if the last client has left just before.
             self._profiling = True
-- 
2.43.0


From 68c1c7f9dd22f52434f0a01ee00bcc2364d5376d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:04 +0000
Subject: [PATCH 19/31] fix: a client whose connection is broken does not stop
 the select server

---
 profiling/remote/select.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/profiling/remote/select.py b/profiling/remote/select.py
index 9f7e4b7..aaca533 100644
--- a/profiling/remote/select.py
+++ b/profiling/remote/select.py
@@ -13,7 +13,7 @@
 """
 from __future__ import absolute_import
 
-from errno import ECONNRESET, EINTR, ENOTCONN
+from errno import EAGAIN, EINTR, ENOTCONN
 import select
 import socket
 import time
@@ -107,6 +107,7 @@ class SelectProfilingServer(ProfilingServer):
                 try:
                     sock.recv(1)
                 except socket.error as exc:
-                    if exc.errno != ECONNRESET:
-                        raise
+                    if exc.errno in (EAGAIN, EINTR):
+                        # still connected.
+                        continue
                 self.disconnected(sock)
-- 
2.43.0


From 1f28bd06a9f72926ddd7925e6a405f272138b004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:17 +0000
Subject: [PATCH 20/31] fix: make the asyncio server work on Python 3.7 or
 later

---
 profiling/remote/asyncio.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/profiling/remote/asyncio.py b/profiling/remote/asyncio.py
index b3cd904..894c2a0 100644
--- a/profiling/remote/asyncio.py
+++ b/profiling/remote/asyncio.py
@@ -15,6 +15,7 @@
 from __future__ import absolute_import
 
 import asyncio
+import types
 
 from profiling.remote import ProfilingServer
 
@@ -22,6 +23,13 @@ from profiling.remote import ProfilingServer
 __all__ = ['AsyncIOProfilingServer']
 
 
+# ``async`` is a keyword since Python 3.7.
+ensure_future = (getattr(asyncio, 'ensure_future', None) or
+                 getattr(asyncio, 'async'))
+# ``asyncio.coroutine`` has been removed at Python 3.11.
+coroutine = getattr(asyncio, 'coroutine', None) or types.coroutine
+
+
 class AsyncIOProfilingServer(ProfilingServer):
     """A profiling server implementation based on `asyncio`_.  Launch a server
     by ``asyncio.start_server`` or ``asyncio.start_unix_server``::
@@ -60,14 +68,14 @@ class AsyncIOProfilingServer(ProfilingServer):
         return writer.get_extra_info('peername')
 
     def _start_profiling(self):
-        asyncio.async(self.profile_periodically())
+        ensure_future(self.profile_periodically())
 
     def _start_watching(self, client):
         reader, writer = client
-        disconnected = lambda x: self.disconnected(reader, writer)
-        asyncio.async(reader.read()).add_done_callback(disconnected)
+        disconnected = lambda x: self.disconnected(client)
+        ensure_future(reader.read()).add_done_callback(disconnected)
 
-    @asyncio.coroutine
+    @coroutine
     def profile_periodically(self):
         for __ in self.profiling():
             yield from asyncio.sleep(self.interval)
-- 
2.43.0


From 553d8c51f782b616e3b5b9c069dbe6bd7b7eff3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:51 +0000
Subject: [PATCH 21/31] fix: try to reconnect when nobody listens to the socket

---
 profiling/remote/client.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/profiling/remote/client.py b/profiling/remote/client.py
index b3ce40c..1b34467 100644
--- a/profiling/remote/client.py
+++ b/profiling/remote/client.py
@@ -96,9 +96,9 @@ class FailoverProfilingClient(ProfilingClient):
             elif errno == EINPROGRESS:
                 # will be connected.
                 break
-            elif errno == ENOENT:
-                # no such socket file.
-                self.create_connection(self.failover_interval)
+            elif errno in (ENOENT, ECONNREFUSED):
+                # no such socket file or nobody listens to it.
+                self.disconnect(errno)
                 return
             else:
                 raise ValueError('Unexpected socket errno: %d' % errno)
@@ -107,7 +107,8 @@ class FailoverProfilingClient(ProfilingClient):
     def disconnect(self, errno):
         self.sock.close()
         # try to reconnect.
-        delay = self.failover_interval if errno == ECONNREFUSED else 0
+        delayed = errno in (ENOENT, ECONNREFUSED)
+        delay = self.failover_interval if delayed else 0
         self.create_connection(delay)
 
     def create_connection(self, delay=0):
-- 
2.43.0


From b5719d4f3f85291e174dd5d1cb7eb2d393e7e28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:59 +0000
Subject: [PATCH 22/31] fix: show the time of the result in the viewer

---
 profiling/viewer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/profiling/viewer.py b/profiling/viewer.py
index 6388d30..af4e088 100644
--- a/profiling/viewer.py
+++ b/profiling/viewer.py
@@ -478,7 +478,7 @@ class StatisticsTable(urwid.WidgetWrap):
 
     title = None
     stats = None
-    time = None
+    at = None
 
     def __init__(self, viewer):
         self._expanded_stat_hashes = set()
@@ -637,7 +637,7 @@ class StatisticsTable(urwid.WidgetWrap):
         if stats is None:
             return
         title = self.title
-        time = self.time
+        time = self.at
         if title or time:
             if time is not None:
                 time_string = '{:%H:%M:%S}'.format(time)
-- 
2.43.0


From 0b2fd546ae26cbbc374d6745dd8a91a9bf2423a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:16 +0000
Subject: [PATCH 23/31] fix: do not fold the whole table away

---
 profiling/viewer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/profiling/viewer.py b/profiling/viewer.py
index af4e088..541c169 100644
--- a/profiling/viewer.py
+++ b/profiling/viewer.py
@@ -343,6 +343,10 @@ class RootStatisticsWidget(StatisticsWidget):
     def get_mark(self):
         raise TypeError('Statistics widget has no mark')
 
+    def keypress(self, size, key):
+        # the root has no row to be expanded again.
+        return key
+
     def update(self):
         pass
 
-- 
2.43.0


From 455ba44715e1cfd1954672c1e2c7c0ef7f40abcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 24/31] fix: carry to the next unit of time when rounding

---
 profiling/viewer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/profiling/viewer.py b/profiling/viewer.py
index 541c169..4c9cdeb 100644
--- a/profiling/viewer.py
+++ b/profiling/viewer.py
@@ -190,20 +190,20 @@ class Formatter(object):
         # 6120: 102min
         if sec == 0:
             return '0'
-        elif sec < 1e-3:
+        elif round(sec * 1e6) < 1e3:
             # 1us ~ 999us
             return '{:.0f}us'.format(sec * 1e6)
-        elif sec < 1:
+        elif round(sec * 1e3) < 1e3:
             # 1ms ~ 999ms
             return '{:.0f}ms'.format(sec * 1e3)
-        elif sec < 60:
+        elif round(sec, 1) < 60:
             # 1.0sec ~ 59.9sec
             return '{:.1f}sec'.format(sec)
-        elif sec < 600:
+        elif round(sec) < 600:
             # 1min0s ~ 9min59s
-            return '{:.0f}m{:.0f}s'.format(sec // 60, sec % 60)
+            return '{:.0f}m{:.0f}s'.format(*divmod(round(sec), 60))
         else:
-            return '{:.0f}m'.format(sec // 60)
+            return '{:.0f}m'.format(round(sec) // 60)
 
     @staticmethod
     def attr_time(sec):
-- 
2.43.0


From 6779dd1570906e996ab4d797fe151b99440d222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:08 +0000
Subject: [PATCH 25/31] fix: the interval option in the configuration may be a
 fraction

---
 profiling/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 418a9b6..433ff71 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -514,7 +514,7 @@ onetime_profiler_options = Params([
 live_profiler_options = Params([
     click.option(
         '-i', '--interval', type=float,
-        default=config_default('interval', remote.INTERVAL),
+        default=config_default('interval', remote.INTERVAL, type=float),
         help='How often update result. (default: %.0f sec)' % remote.INTERVAL),
     click.option(
         '--spawn', type=click.Choice(spawn.modes),
-- 
2.43.0


From 506c80fc0103ba73fe6a1e9c2b376553e9ec4dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:08 +0000
Subject: [PATCH 26/31] fix: save the result in the requested file even if the
 program changes directory

---
 profiling/__main__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 433ff71..9c86382 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -537,6 +537,11 @@ live_profiler_options = Params([
 def __profile__(filename, code, globals_, profiler_factory,
                 pickle_protocol=remote.PICKLE_PROTOCOL, dump_filename=None,
                 mono=False):
+    if dump_filename is None:
+        dump_path = None
+    else:
+        # the program may change the current directory.
+        dump_path = os.path.abspath(dump_filename)
     frame = sys._getframe()
     profiler = profiler_factory(base_frame=frame, base_code=code)
     profiler.start()
@@ -550,13 +555,13 @@ def __profile__(filename, code, globals_, profiler_factory,
         profiler.stop()
     # discard this __profile__ function from the result.
     profiler.stats.discard_child(frame.f_code)
-    if dump_filename is None:
+    if dump_path is None:
         try:
             profiler.run_viewer(get_title(filename), mono=mono)
         except KeyboardInterrupt:
             pass
     else:
-        profiler.dump(dump_filename, pickle_protocol)
+        profiler.dump(dump_path, pickle_protocol)
 
         click.echo('To view statistics:')
         click.echo('  $ profiling view ', nl=False)
-- 
2.43.0


From c1f6075cd42045b91ceb3b7254c504583659ce1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:08 +0000
Subject: [PATCH 27/31] fix: a profiler which fails to start in background does
 not disturb the program

---
 profiling/remote/background.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/profiling/remote/background.py b/profiling/remote/background.py
index 09a341b..9192dd1 100644
--- a/profiling/remote/background.py
+++ b/profiling/remote/background.py
@@ -25,6 +25,9 @@ class BackgroundProfiler(ProfilerWrapper):
 
     signum = signal.SIGUSR2
 
+    #: The exception raised by the profiler at the latest signal.
+    _exc = None
+
     def __init__(self, profiler, signum=None):
         super(BackgroundProfiler, self).__init__(profiler)
         if signum is not None:
@@ -47,10 +50,19 @@ class BackgroundProfiler(ProfilerWrapper):
         self.event.clear()
         os.kill(os.getpid(), self.signum)
         self.event.wait()
+        exc, self._exc = self._exc, None
+        if exc is not None:
+            raise exc
 
     def _signal_handler(self, signum, frame):
-        if self.profiler.is_running():
-            self.profiler.stop()
-        else:
-            self.profiler.start()
-        self.event.set()
+        try:
+            if self.profiler.is_running():
+                self.profiler.stop()
+            else:
+                self.profiler.start()
+        except Exception as exc:
+            # don't disturb the main thread.  the background thread, which is
+            # waiting for the event, will raise it.
+            self._exc = exc
+        finally:
+            self.event.set()
-- 
2.43.0


From de40b38856dbb7572069054cc9c3207424cac02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:08 +0000
Subject: [PATCH 28/31] fix: report failures in the C accelerator

---
 profiling/speedup.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/profiling/speedup.c b/profiling/speedup.c
index fee6465..b4c630b 100644
--- a/profiling/speedup.c
+++ b/profiling/speedup.c
@@ -23,18 +23,34 @@ frame_stack(PyObject *self, PyObject *args)
     {
         return NULL;
     }
+    if ((PyObject*)frame == Py_None)
+    {
+        // There's no frame.
+        frame = NULL;
+    }
     while (frame != NULL)
     {
         if (frame == base_frame || frame->f_code == base_code)
         {
             break;
         }
-        if (PySet_Contains((PYOBJ)ignored_frames, (PYOBJ)frame) == 0 &&
-            PySet_Contains((PYOBJ)ignored_codes, (PYOBJ)frame->f_code) == 0)
+        int ignored = PySet_Contains((PYOBJ)ignored_frames, (PYOBJ)frame);
+        if (ignored == 0)
+        {
+            ignored = PySet_Contains((PYOBJ)ignored_codes,
+                                     (PYOBJ)frame->f_code);
+        }
+        if (ignored == -1)
+        {
+            Py_DECREF(frame_stack);
+            return NULL;
+        }
+        if (ignored == 0)
         {
             // Not ignored.
             if (PyList_Append(frame_stack, (PyObject*)frame) == -1)
             {
+                Py_DECREF(frame_stack);
                 return NULL;
             }
         }
-- 
2.43.0


From 49dc902cfab98d7712d4f6fac92f0585d964b635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:22 +0000
Subject: [PATCH 29/31] fix: profile statements of several lines by
 timeit-profile

---
 profiling/__main__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 9c86382..e7f6abe 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -15,6 +15,7 @@
 """
 from __future__ import absolute_import
 
+import ast
 from datetime import datetime
 from functools import partial, wraps
 import importlib
@@ -766,8 +767,10 @@ def timeit_profile(stmt, number, repeat, setup,
                 break
         dummy_profiler.stop()
         del dummy_profiler
-    code = compile('for _ in range(%d): %s' % (number, stmt),
-                   'STATEMENT', 'exec')
+    # the statement may consist of several lines.
+    tree = ast.parse('for _ in range(%d): pass' % number, 'STATEMENT')
+    tree.body[0].body.extend(ast.parse(stmt, 'STATEMENT').body)
+    code = compile(tree, 'STATEMENT', 'exec')
     __profile__(stmt, code, globals_, profiler_factory,
                 pickle_protocol=pickle_protocol, dump_filename=dump_filename,
                 mono=mono)
-- 
2.43.0


From 0d020f570b353e360008e9f6b4509d2ea94161e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:16 +0000
Subject: [PATCH 30/31] fix: don't mix up equal functions of different files

Code objects are equal if everything but their file is.  Functions that look
the same at the same line of two files were recorded as one of them.
---
 profiling/stats.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/profiling/stats.py b/profiling/stats.py
index ee9fb77..543e4df 100644
--- a/profiling/stats.py
+++ b/profiling/stats.py
@@ -237,20 +237,25 @@ class RecordingStatistics(Statistics):
     def children(self):
         return list(itervalues(self._children))
 
+    @staticmethod
+    def _key(code):
+        # code objects of different files may be equal.
+        return code, getattr(code, 'co_filename', None)
+
     def get_child(self, code):
-        return self._children[code]
+        return self._children[self._key(code)]
 
     def add_child(self, code, stats):
-        self._children[code] = stats
+        self._children[self._key(code)] = stats
 
     def remove_child(self, code):
-        del self._children[code]
+        del self._children[self._key(code)]
 
     def discard_child(self, code):
-        self._children.pop(code, None)
+        self._children.pop(self._key(code), None)
 
     def ensure_child(self, code, adding_stat_class=None):
-        stats = self._children.get(code)
+        stats = self._children.get(self._key(code))
         stat_class = adding_stat_class or type(self)
         if stats is None:
             stats = stat_class(code)
@@ -277,7 +282,7 @@ class RecordingStatistics(Statistics):
         return len(self._children)
 
     def __contains__(self, code):
-        return code in self._children
+        return self._key(code) in self._children
 
 
 class VoidRecordingStatistics(RecordingStatistics):
-- 
2.43.0


From f37ee732072a00e5caa9341aa1711b00b1030524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:16 +0000
Subject: [PATCH 31/31] fix: don't hide the variable _ of the setup from a
 timed statement

The loop around the statement used it for its counter, so that for example the
usual alias of gettext() was a number then.
---
 profiling/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index e7f6abe..eb7952e 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -768,7 +768,7 @@ def timeit_profile(stmt, number, repeat, setup,
         dummy_profiler.stop()
         del dummy_profiler
     # the statement may consist of several lines.
-    tree = ast.parse('for _ in range(%d): pass' % number, 'STATEMENT')
+    tree = ast.parse('for _i in range(%d): pass' % number, 'STATEMENT')
     tree.body[0].body.extend(ast.parse(stmt, 'STATEMENT').body)
     code = compile(tree, 'STATEMENT', 'exec')
     __profile__(stmt, code, globals_, profiler_factory,
-- 
2.43.0

