From 9e131eda30b1daa32a74c9501082fb7b7f11bf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 01/37] fix: a failed start leaves a Runnable stopped

Runnable.start() kept the exhausted generator when run() raised or was not
canonical, so is_running() stayed true and the object could not be restarted.
---
 profiling/utils.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/profiling/utils.py b/profiling/utils.py
index 5f69fff..fee6097 100644
--- a/profiling/utils.py
+++ b/profiling/utils.py
@@ -44,13 +44,19 @@ class Runnable(object):
         """
         if self.is_running():
             raise RuntimeError('Already started')
-        self._running = self.run(*args, **kwargs)
+        self._running = running = self.run(*args, **kwargs)
         try:
-            yielded = next(self._running)
-        except StopIteration:
-            raise TypeError('run() must yield just one time')
-        if yielded is not None:
-            raise TypeError('run() must yield without value')
+            try:
+                yielded = next(running)
+            except StopIteration:
+                raise TypeError('run() must yield just one time')
+            if yielded is not None:
+                running.close()
+                raise TypeError('run() must yield without value')
+        except:
+            # failed to start.
+            self._running = None
+            raise
 
     def stop(self):
         """Stops the instance.
-- 
2.43.0


From b3ad14d1b1a799c4f69bb54c676c655f26350f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:26 +0000
Subject: [PATCH 02/37] fix: starting a running profiler keeps its statistics

Profiler.start() cleared the statistics and the clocks of the running session
before it found out that it was already started.
---
 profiling/profiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/profiling/profiler.py b/profiling/profiler.py
index eee0e86..33083bf 100644
--- a/profiling/profiler.py
+++ b/profiling/profiler.py
@@ -46,6 +46,8 @@ class Profiler(Runnable):
         self.stats = RecordingStatistics()
 
     def start(self):
+        if self.is_running():
+            raise RuntimeError('Already started')
         self._cpu_time_started = time.clock()
         self._wall_time_started = time.time()
         self.stats.clear()
-- 
2.43.0


From b7904f91a9e2afe4d08370ed8dff3e89d31dba4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:51 +0000
Subject: [PATCH 03/37] fix: a failing deferred call does not skip the others

deferral() dropped the remaining clean-ups when one of them raised.
---
 profiling/utils.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/profiling/utils.py b/profiling/utils.py
index fee6097..47a47b8 100644
--- a/profiling/utils.py
+++ b/profiling/utils.py
@@ -151,12 +151,19 @@ def deferral():
     """
     deferred = []
     defer = lambda f, *a, **k: deferred.append((f, a, k))
+    def call_deferred():
+        while deferred:
+            f, a, k = deferred.pop()
+            try:
+                f(*a, **k)
+            except:
+                # call the others even so.
+                call_deferred()
+                raise
     try:
         yield defer
     finally:
-        while deferred:
-            f, a, k = deferred.pop()
-            f(*a, **k)
+        call_deferred()
 
 
 if sys.version_info < (3, 3):
-- 
2.43.0


From 7d12d0908517bc16d0bb139305d88b7a6a3b3b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:15 +0000
Subject: [PATCH 04/37] fix: record on the function even if it was a caller
 before

ensure_child() gave back a placeholder, which drops whatever is recorded on it,
when the code had been seen as a calling frame first.  Samples and calls of
such functions were lost.
---
 profiling/stats.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/profiling/stats.py b/profiling/stats.py
index 525c513..e8ceac6 100644
--- a/profiling/stats.py
+++ b/profiling/stats.py
@@ -251,10 +251,17 @@ class RecordingStatistics(Statistics):
 
     def ensure_child(self, code, adding_stat_class=None):
         stats = self._children.get(code)
+        stat_class = adding_stat_class or type(self)
         if stats is None:
-            stat_class = adding_stat_class or type(self)
             stats = stat_class(code)
             self.add_child(code, stats)
+        elif (isinstance(stats, VoidRecordingStatistics) and
+              not issubclass(stat_class, VoidRecordingStatistics)):
+            # a placeholder cannot record anything.
+            void, stats = stats, stat_class(code)
+            stats._children = void._children
+            stats.deep_time = void.deep_time
+            self.add_child(code, stats)
         return stats
 
     def clear(self):
-- 
2.43.0


From 07aa198df7df2e500bc671c41dd3e817a7087897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:04 +0000
Subject: [PATCH 05/37] fix: never report a negative CPU time

The overhead is measured by the timer of the profiler, the CPU time by
time.clock().  The former may exceed the latter.
---
 profiling/tracing/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profiling/tracing/__init__.py b/profiling/tracing/__init__.py
index 2a1870b..ae4b3c8 100644
--- a/profiling/tracing/__init__.py
+++ b/profiling/tracing/__init__.py
@@ -126,7 +126,7 @@ class TracingProfiler(Profiler):
     def result(self):
         base = super(TracingProfiler, self)
         frozen_stats, cpu_time, wall_time = base.result()
-        return (frozen_stats, cpu_time - self.overhead, wall_time)
+        return (frozen_stats, max(0, cpu_time - self.overhead), wall_time)
 
     def run(self):
         if sys.getprofile() is not None:
-- 
2.43.0


From 4c908821749dc28dcb504074ee765ea7a64e9b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:28 +0000
Subject: [PATCH 06/37] fix: sort module-level code by its name, too

Statistics of a module has no name, and code without a module has no module.
Python 3 cannot compare None with the names of others.
---
 profiling/sortkeys.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/profiling/sortkeys.py b/profiling/sortkeys.py
index 019ba89..124f7fb 100644
--- a/profiling/sortkeys.py
+++ b/profiling/sortkeys.py
@@ -30,13 +30,13 @@ class SortKey(object):
 
 
 #: Sorting by name in ascending order.
-by_name = SortKey(lambda stat: stat.name)
+by_name = SortKey(lambda stat: stat.name or '')
 
 #: Sorting by module in ascending order.
-by_module = SortKey(lambda stat: stat.module)
+by_module = SortKey(lambda stat: stat.module or '')
 
 #: Sorting by module and name in ascending order.
-by_function = SortKey(lambda stat: (stat.module, stat.name))
+by_function = SortKey(lambda stat: (stat.module or '', stat.name or ''))
 
 #: Sorting by number of inclusive hits in descending order.
 by_deep_hits = SortKey(lambda stat: -stat.deep_hits)
-- 
2.43.0


From 237446b1a2019252eaeb286ce4960f2b47c905fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:52 +0000
Subject: [PATCH 07/37] fix: give back the profile and greenlet trace functions
 of others

TracingSampler and GreenletTimer reset them to None instead of what was
installed before they started.
---
 profiling/sampling/samplers.py | 3 ++-
 profiling/tracing/timers.py    | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/profiling/sampling/samplers.py b/profiling/sampling/samplers.py
index 4c4a288..1cbc462 100644
--- a/profiling/sampling/samplers.py
+++ b/profiling/sampling/samplers.py
@@ -104,8 +104,9 @@ class TracingSampler(Sampler):
     def run(self, profiler):
         profile = functools.partial(self._profile, profiler)
         with deferral() as defer:
+            prev_profile = sys.getprofile()
             sys.setprofile(profile)
-            defer(sys.setprofile, None)
+            defer(sys.setprofile, prev_profile)
             threading.setprofile(profile)
             defer(threading.setprofile, None)
             yield
diff --git a/profiling/tracing/timers.py b/profiling/tracing/timers.py
index a61396a..e2f8e96 100644
--- a/profiling/tracing/timers.py
+++ b/profiling/tracing/timers.py
@@ -88,6 +88,6 @@ class GreenletTimer(ContextualTimer):
         self.resume(id(target))
 
     def run(self, profiler):
-        self.greenlet.settrace(self._trace)
+        prev_trace = self.greenlet.settrace(self._trace)
         yield
-        self.greenlet.settrace(None)
+        self.greenlet.settrace(prev_trace)
-- 
2.43.0


From 850e3bdc274f3ad820d7d6ce2531f9716e2edf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:15 +0000
Subject: [PATCH 08/37] fix: forget the dead threads, not the living ones

TracingSampler._clear_for_dead_threads() dropped the sampled times of exactly
the threads which are still alive.
---
 profiling/sampling/samplers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/profiling/sampling/samplers.py b/profiling/sampling/samplers.py
index 1cbc462..9f2f5e5 100644
--- a/profiling/sampling/samplers.py
+++ b/profiling/sampling/samplers.py
@@ -98,8 +98,10 @@ class TracingSampler(Sampler):
             self._clear_for_dead_threads()
 
     def _clear_for_dead_threads(self):
-        for thread_id in sys._current_frames().keys():
-            self.sampled_times.pop(thread_id, None)
+        living_thread_ids = set(sys._current_frames().keys())
+        for thread_id in list(self.sampled_times.keys()):
+            if thread_id not in living_thread_ids:
+                self.sampled_times.pop(thread_id, None)
 
     def run(self, profiler):
         profile = functools.partial(self._profile, profiler)
-- 
2.43.0


From 8763da71662c29e0da0b26c128856c1cdda50c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:39 +0000
Subject: [PATCH 09/37] fix: threads record nothing after the profiler stopped

Threads which were started while profiling kept their profile function, and
went on changing the statistics after stop().
---
 profiling/sampling/samplers.py | 10 +++++++++-
 profiling/tracing/__init__.py  | 11 ++++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/profiling/sampling/samplers.py b/profiling/sampling/samplers.py
index 9f2f5e5..311933f 100644
--- a/profiling/sampling/samplers.py
+++ b/profiling/sampling/samplers.py
@@ -97,6 +97,13 @@ class TracingSampler(Sampler):
         if self.counter % 10000 == 0:
             self._clear_for_dead_threads()
 
+    def _profile_thread(self, profiler, frame, event, arg):
+        # a thread keeps its profile function even after the sampler stopped.
+        if self.is_running():
+            self._profile(profiler, frame, event, arg)
+        else:
+            sys.setprofile(None)
+
     def _clear_for_dead_threads(self):
         living_thread_ids = set(sys._current_frames().keys())
         for thread_id in list(self.sampled_times.keys()):
@@ -109,6 +116,7 @@ class TracingSampler(Sampler):
             prev_profile = sys.getprofile()
             sys.setprofile(profile)
             defer(sys.setprofile, prev_profile)
-            threading.setprofile(profile)
+            thread_profile = functools.partial(self._profile_thread, profiler)
+            threading.setprofile(thread_profile)
             defer(threading.setprofile, None)
             yield
diff --git a/profiling/tracing/__init__.py b/profiling/tracing/__init__.py
index ae4b3c8..491416f 100644
--- a/profiling/tracing/__init__.py
+++ b/profiling/tracing/__init__.py
@@ -107,6 +107,15 @@ class TracingProfiler(Profiler):
         time3 = self.timer()
         self.overhead += time3 - time2
 
+    def _profile_thread(self, frame, event, arg):
+        """The callback function for the threads which are started while
+        profiling.  They keep it even after the profiler stopped.
+        """
+        if self.is_running():
+            self._profile(frame, event, arg)
+        else:
+            sys.setprofile(None)
+
     def record_entering(self, time, code, frame_key, parent_stats):
         """Entered to a function call."""
         stats = parent_stats.ensure_child(code, RecordingStatistics)
@@ -139,7 +148,7 @@ class TracingProfiler(Profiler):
             self.overhead = 0.0
             sys.setprofile(self._profile)
             defer(sys.setprofile, None)
-            threading.setprofile(self._profile)
+            threading.setprofile(self._profile_thread)
             defer(threading.setprofile, None)
             self.timer.start(self)
             defer(self.timer.stop)
-- 
2.43.0


From ec6d3936a23881599cffbb656d12d4aa31c024a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:31 +0000
Subject: [PATCH 10/37] fix: receive a message which arrives in pieces

recv() took a part of the data for a closed connection.  MSG_WAITALL returns
less than requested on a non-blocking socket (the viewer uses one) and when a
signal interrupts it, so results of more than a few packets were dropped.
---
 profiling/remote/__init__.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index ab5cb1a..ad236e3 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -12,7 +12,8 @@
 """
 from __future__ import absolute_import
 
-from errno import EBADF, ECONNRESET, EPIPE
+from errno import (
+    EAGAIN, EBADF, ECONNRESET, EINTR, EPIPE, EWOULDBLOCK)
 import functools
 import io
 from logging import getLogger as get_logger
@@ -20,6 +21,7 @@ try:
     import cPickle as pickle
 except ImportError:
     import pickle
+from select import select as wait_sockets
 import socket
 import struct
 
@@ -68,10 +70,22 @@ def pack_msg(method, msg, pickle_protocol=PICKLE_PROTOCOL):
 
 def recv(sock, size):
     """Receives exactly `size` bytes.  This function blocks the thread."""
-    data = sock.recv(size, socket.MSG_WAITALL)
-    if len(data) < size:
-        raise socket.error(ECONNRESET, 'Connection closed')
-    return data
+    chunks = []
+    while size > 0:
+        try:
+            chunk = sock.recv(size, socket.MSG_WAITALL)
+        except socket.error as exc:
+            if exc.errno in (EAGAIN, EWOULDBLOCK):
+                # the rest has not arrived at the non-blocking socket yet.
+                wait_sockets([sock], (), ())
+            elif exc.errno != EINTR:
+                raise
+            continue
+        if not chunk:
+            raise socket.error(ECONNRESET, 'Connection closed')
+        chunks.append(chunk)
+        size -= len(chunk)
+    return b''.join(chunks)
 
 
 def recv_msg(sock):
-- 
2.43.0


From 66f08802191843aaffcd1df89c3cf2d88f7b0475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:55 +0000
Subject: [PATCH 11/37] fix: disconnect any client which cannot be sent to

Only EPIPE was noticed while broadcasting: a client which had been reset, or
which had got just a part of a message, stayed connected with a broken stream.
The clients may also change while a result is being sent (gevent).
---
 profiling/remote/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index ad236e3..5a95fc1 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -198,12 +198,11 @@ class ProfilingServer(object):
             self._latest_result_data = data
             # broadcast.
             closed_clients = []
-            for client in self.clients:
+            for client in list(self.clients):
                 try:
                     self._send(client, data)
-                except socket.error as exc:
-                    if exc.errno == EPIPE:
-                        closed_clients.append(client)
+                except socket.error:
+                    closed_clients.append(client)
             del data
             # handle disconnections.
             for client in closed_clients:
-- 
2.43.0


From 41b4c3b34065e8eb464d199d5fe59db3ce0ebae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:22 +0000
Subject: [PATCH 12/37] fix: a failing client does not take the server down

Socket errors of a client which is being welcomed, asked for its address or
read from propagated out of the server and ended it.
---
 profiling/remote/__init__.py | 20 +++++++++-----------
 profiling/remote/select.py   | 14 +++++---------
 2 files changed, 14 insertions(+), 20 deletions(-)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index 5a95fc1..c89b76a 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -13,7 +13,7 @@
 from __future__ import absolute_import
 
 from errno import (
-    EAGAIN, EBADF, ECONNRESET, EINTR, EPIPE, EWOULDBLOCK)
+    EAGAIN, ECONNRESET, EINTR, EWOULDBLOCK)
 import functools
 import io
 from logging import getLogger as get_logger
@@ -220,23 +220,21 @@ class ProfilingServer(object):
         self.clients.add(client)
         self._log_connected(client)
         self._start_watching(client)
-        self.send_msg(client, WELCOME, (self.pickle_protocol, __version__),
-                      pickle_protocol=0)
         profiler = self.profiler
         while True:
             try:
                 profiler = profiler.profiler
             except AttributeError:
                 break
-        self.send_msg(client, PROFILER, type(profiler))
-        if self._latest_result_data is not None:
-            try:
+        try:
+            self.send_msg(client, WELCOME, (self.pickle_protocol, __version__),
+                          pickle_protocol=0)
+            self.send_msg(client, PROFILER, type(profiler))
+            if self._latest_result_data is not None:
                 self._send(client, self._latest_result_data)
-            except socket.error as exc:
-                if exc.errno in (EBADF, EPIPE):
-                    self.disconnected(client)
-                    return
-                raise
+        except socket.error:
+            self.disconnected(client)
+            return
         if len(self.clients) == 1:
             self._start_profiling()
 
diff --git a/profiling/remote/select.py b/profiling/remote/select.py
index 9f7e4b7..f40b1c6 100644
--- a/profiling/remote/select.py
+++ b/profiling/remote/select.py
@@ -13,7 +13,7 @@
 """
 from __future__ import absolute_import
 
-from errno import ECONNRESET, EINTR, ENOTCONN
+from errno import EINTR
 import select
 import socket
 import time
@@ -43,11 +43,8 @@ class SelectProfilingServer(ProfilingServer):
     def _addr(self, sock):
         try:
             return sock.getpeername()
-        except socket.error as exc:
-            if exc.errno == ENOTCONN:
-                return None
-            else:
-                raise
+        except socket.error:
+            return None
 
     def _start_profiling(self):
         self.profile_periodically()
@@ -106,7 +103,6 @@ class SelectProfilingServer(ProfilingServer):
             else:
                 try:
                     sock.recv(1)
-                except socket.error as exc:
-                    if exc.errno != ECONNRESET:
-                        raise
+                except socket.error:
+                    pass
                 self.disconnected(sock)
-- 
2.43.0


From ba5b210aba73dffc72acb2ee541ff6a9782f4ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:50 +0000
Subject: [PATCH 13/37] fix: keep serving when the profiler has been stopped
 already

When the only client is replaced by another one within an interval, the nested
profiling loop stops the profiler before the outer one does.
---
 profiling/remote/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index c89b76a..a3552e1 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -191,7 +191,10 @@ class ProfilingServer(object):
                 pass
             # should sleep.
             yield
-            self.profiler.stop()
+            try:
+                self.profiler.stop()
+            except RuntimeError:
+                pass
             result = self.profiler.result()
             data = pack_msg(RESULT, result,
                             pickle_protocol=self.pickle_protocol)
-- 
2.43.0


From b04f41d23beadacc20aab136e995607159176b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 14/37] fix: make the asyncio and gevent servers keep the
 server contract

The asyncio server could not be imported since Python 3.7, and passed two
arguments to disconnected(), so that no client was ever reported as lost.  The
gevent server reported its own address as the address of the client.
---
 profiling/remote/asyncio.py | 12 +++++++++---
 profiling/remote/gevent.py  |  5 ++++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/profiling/remote/asyncio.py b/profiling/remote/asyncio.py
index b3cd904..1b71ca9 100644
--- a/profiling/remote/asyncio.py
+++ b/profiling/remote/asyncio.py
@@ -22,6 +22,12 @@ from profiling.remote import ProfilingServer
 __all__ = ['AsyncIOProfilingServer']
 
 
+#: ``async`` is a keyword since Python 3.7.
+ensure_future = getattr(asyncio, 'ensure_future', None)
+if ensure_future is None:
+    ensure_future = getattr(asyncio, 'async')
+
+
 class AsyncIOProfilingServer(ProfilingServer):
     """A profiling server implementation based on `asyncio`_.  Launch a server
     by ``asyncio.start_server`` or ``asyncio.start_unix_server``::
@@ -60,12 +66,12 @@ class AsyncIOProfilingServer(ProfilingServer):
         return writer.get_extra_info('peername')
 
     def _start_profiling(self):
-        asyncio.async(self.profile_periodically())
+        ensure_future(self.profile_periodically())
 
     def _start_watching(self, client):
         reader, writer = client
-        disconnected = lambda x: self.disconnected(reader, writer)
-        asyncio.async(reader.read()).add_done_callback(disconnected)
+        disconnected = lambda x: self.disconnected(client)
+        ensure_future(reader.read()).add_done_callback(disconnected)
 
     @asyncio.coroutine
     def profile_periodically(self):
diff --git a/profiling/remote/gevent.py b/profiling/remote/gevent.py
index aba98ee..2feb118 100644
--- a/profiling/remote/gevent.py
+++ b/profiling/remote/gevent.py
@@ -59,7 +59,10 @@ class GeventProfilingServer(StreamServer, ProfilingServer):
         sock.close()
 
     def _addr(self, sock):
-        return sock.getsockname()
+        try:
+            return sock.getpeername()
+        except socket.error:
+            return None
 
     def _start_profiling(self):
         self.profiling_greenlet = gevent.spawn(self.profile_periodically)
-- 
2.43.0


From 45e318cba76d886c64f632532e26ff5ecce6e53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:24 +0000
Subject: [PATCH 15/37] fix: keep reconnecting when a UNIX domain socket
 refuses

connect_ex() returns ECONNREFUSED immediately there, which raised ValueError
and ended the viewer.  Close the old socket before it is replaced, too.
---
 profiling/remote/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/profiling/remote/client.py b/profiling/remote/client.py
index b3ce40c..99b5f7b 100644
--- a/profiling/remote/client.py
+++ b/profiling/remote/client.py
@@ -96,8 +96,9 @@ class FailoverProfilingClient(ProfilingClient):
             elif errno == EINPROGRESS:
                 # will be connected.
                 break
-            elif errno == ENOENT:
-                # no such socket file.
+            elif errno in (ENOENT, ECONNREFUSED):
+                # no such socket file, or no server listens there.
+                self.sock.close()
                 self.create_connection(self.failover_interval)
                 return
             else:
-- 
2.43.0


From 4271851da26ec05c5ac1adf93e84f24e5a538b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:50 +0000
Subject: [PATCH 16/37] fix: answer the background thread even if the profiler
 failed

When the profiler raised in the signal handler, the thread waited forever.
---
 profiling/remote/background.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/profiling/remote/background.py b/profiling/remote/background.py
index 09a341b..29a8df8 100644
--- a/profiling/remote/background.py
+++ b/profiling/remote/background.py
@@ -49,8 +49,10 @@ class BackgroundProfiler(ProfilerWrapper):
         self.event.wait()
 
     def _signal_handler(self, signum, frame):
-        if self.profiler.is_running():
-            self.profiler.stop()
-        else:
-            self.profiler.start()
-        self.event.set()
+        try:
+            if self.profiler.is_running():
+                self.profiler.stop()
+            else:
+                self.profiler.start()
+        finally:
+            self.event.set()
-- 
2.43.0


From 63a465e83b0515f9130d30abfa2a6328c17897c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:16 +0000
Subject: [PATCH 17/37] fix: show when the result was captured

The header looked for the time where nothing was ever stored.
---
 profiling/viewer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/profiling/viewer.py b/profiling/viewer.py
index 6388d30..af4e088 100644
--- a/profiling/viewer.py
+++ b/profiling/viewer.py
@@ -478,7 +478,7 @@ class StatisticsTable(urwid.WidgetWrap):
 
     title = None
     stats = None
-    time = None
+    at = None
 
     def __init__(self, viewer):
         self._expanded_stat_hashes = set()
@@ -637,7 +637,7 @@ class StatisticsTable(urwid.WidgetWrap):
         if stats is None:
             return
         title = self.title
-        time = self.time
+        time = self.at
         if title or time:
             if time is not None:
                 time_string = '{:%H:%M:%S}'.format(time)
-- 
2.43.0


From f89ca4fba3c0851558f59e1351c0edbfb2462e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 18/37] fix: stop the calibrating profiler when the statement
 raises

timeit-profile left it running.
---
 profiling/__main__.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 418a9b6..0f06890 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -751,15 +751,14 @@ def timeit_profile(stmt, number, repeat, setup,
     if number is None:
         # determine number so that 0.2 <= total time < 2.0 like timeit.
         dummy_profiler = profiler_factory()
-        dummy_profiler.start()
-        for x in range(1, 10):
-            number = 10 ** x
-            t = time.time()
-            for y in range(number):
-                exec_(stmt, globals_)
-            if time.time() - t >= 0.2:
-                break
-        dummy_profiler.stop()
+        with dummy_profiler:
+            for x in range(1, 10):
+                number = 10 ** x
+                t = time.time()
+                for y in range(number):
+                    exec_(stmt, globals_)
+                if time.time() - t >= 0.2:
+                    break
         del dummy_profiler
     code = compile('for _ in range(%d): %s' % (number, stmt),
                    'STATEMENT', 'exec')
-- 
2.43.0


From 8035227c3d56e0915ed8a655a8863ee855929512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:11 +0000
Subject: [PATCH 19/37] fix: accept a fractional interval in the configuration

The type was guessed from the default value, an integer, while the option is a
float.
---
 profiling/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 0f06890..cda940e 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -514,7 +514,7 @@ onetime_profiler_options = Params([
 live_profiler_options = Params([
     click.option(
         '-i', '--interval', type=float,
-        default=config_default('interval', remote.INTERVAL),
+        default=config_default('interval', remote.INTERVAL, type=float),
         help='How often update result. (default: %.0f sec)' % remote.INTERVAL),
     click.option(
         '--spawn', type=click.Choice(spawn.modes),
-- 
2.43.0


From 5316f5020274b4bb5480b4811765f0ad807e6b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:52 +0000
Subject: [PATCH 20/37] fix: report errors of the C frame stack

An error of the membership tests was taken for "ignored", so that a
result was returned with an exception set, and the list leaked when it
could not grow.
---
 profiling/speedup.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/profiling/speedup.c b/profiling/speedup.c
index fee6465..7afb3f0 100644
--- a/profiling/speedup.c
+++ b/profiling/speedup.c
@@ -29,14 +29,21 @@ frame_stack(PyObject *self, PyObject *args)
         {
             break;
         }
-        if (PySet_Contains((PYOBJ)ignored_frames, (PYOBJ)frame) == 0 &&
-            PySet_Contains((PYOBJ)ignored_codes, (PYOBJ)frame->f_code) == 0)
+        int ignored = PySet_Contains((PYOBJ)ignored_frames, (PYOBJ)frame);
+        if (ignored == 0)
+        {
+            ignored = PySet_Contains((PYOBJ)ignored_codes,
+                                     (PYOBJ)frame->f_code);
+        }
+        if (ignored == 0)
         {
             // Not ignored.
-            if (PyList_Append(frame_stack, (PyObject*)frame) == -1)
-            {
-                return NULL;
-            }
+            ignored = PyList_Append(frame_stack, (PyObject*)frame);
+        }
+        if (ignored == -1)
+        {
+            Py_DECREF(frame_stack);
+            return NULL;
         }
         frame = frame->f_back;
     }
-- 
2.43.0


From 10da39160441f6947cc753fbe58a2092a8e99af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:34 +0000
Subject: [PATCH 21/37] fix: keep one profiling loop per server

A server counted its clients to decide whether to start profiling.  When the
last client left and another one came while the loop was still waiting, the
asyncio server started a second loop, which cut the intervals in pieces; when
two clients were welcomed at once, no loop was started at all.
---
 profiling/remote/__init__.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index a3552e1..bfc1639 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -141,6 +141,9 @@ class ProfilingServer(object):
 
     _latest_result_data = None
 
+    #: Whether a profiling loop was started and has not ended yet.
+    _profiling_started = False
+
     def __init__(self, profiler, interval=INTERVAL,
                  log=LOG, pickle_protocol=PICKLE_PROTOCOL):
         self.profiler = profiler
@@ -183,6 +186,13 @@ class ProfilingServer(object):
                    time.sleep(self.interval)
 
         """
+        try:
+            for __ in self._profiling():
+                yield
+        finally:
+            self._profiling_started = False
+
+    def _profiling(self):
         self._log_profiler_started()
         while self.clients:
             try:
@@ -238,7 +248,9 @@ class ProfilingServer(object):
         except socket.error:
             self.disconnected(client)
             return
-        if len(self.clients) == 1:
+        if not self._profiling_started:
+            # a started loop goes on as long as there are clients.
+            self._profiling_started = True
             self._start_profiling()
 
     def disconnected(self, client):
-- 
2.43.0


From dffa6ac56867d606088be001221151e5208fc83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:38 +0000
Subject: [PATCH 22/37] fix: resuming a running context rewound its timer

---
 profiling/tracing/timers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/profiling/tracing/timers.py b/profiling/tracing/timers.py
index e2f8e96..0f8b82f 100644
--- a/profiling/tracing/timers.py
+++ b/profiling/tracing/timers.py
@@ -53,8 +53,8 @@ class ContextualTimer(Timer):
     def resume(self, context=None):
         if context is None:
             context = self.detect_context()
-        paused_at, __ = self._contextual_times.get(context, (0, 0))
-        self._contextual_times[context] = (paused_at, self.clock())
+        # the context may be running already.
+        self._contextual_times[context] = (self(context), self.clock())
 
     def detect_context(self):
         raise NotImplementedError('detect_context() should be implemented')
-- 
2.43.0


From bffe7a0246aca51a4d8d427670e90d0ae43a9dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:04 +0000
Subject: [PATCH 23/37] fix: a greenlet paused in an earlier profiling stayed
 paused in the next

---
 profiling/tracing/timers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/profiling/tracing/timers.py b/profiling/tracing/timers.py
index 0f8b82f..5fb8c10 100644
--- a/profiling/tracing/timers.py
+++ b/profiling/tracing/timers.py
@@ -88,6 +88,8 @@ class GreenletTimer(ContextualTimer):
         self.resume(id(target))
 
     def run(self, profiler):
+        # switches since the last run were not traced.
+        self._contextual_times.clear()
         prev_trace = self.greenlet.settrace(self._trace)
         yield
         self.greenlet.settrace(prev_trace)
-- 
2.43.0


From 3e6c165499ebc8be94c7df423b440ca65bde2639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:46 +0000
Subject: [PATCH 24/37] fix: a new thread was not sampled for the CPU time of
 an ended one with its id

---
 profiling/sampling/samplers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/profiling/sampling/samplers.py b/profiling/sampling/samplers.py
index 311933f..72da8c0 100644
--- a/profiling/sampling/samplers.py
+++ b/profiling/sampling/samplers.py
@@ -89,6 +89,9 @@ class TracingSampler(Sampler):
         t = thread_clock()
         thread_id = _thread.get_ident()
         sampled_at = self.sampled_times.get(thread_id, 0)
+        if t < sampled_at:
+            # a new thread took over the id of an ended one.
+            sampled_at = 0
         if t - sampled_at < self.interval:
             return
         self.sampled_times[thread_id] = t
-- 
2.43.0


From 4f8a1609d7f505d2b02e239ea3884141396e6c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 25/37] fix: a one-shot profile contained the profiler's own
 start() and stop()

---
 profiling/__main__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index cda940e..b2b644d 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -548,8 +548,11 @@ def __profile__(filename, code, globals_, profiler_factory,
         traceback.print_exc()
     else:
         profiler.stop()
-    # discard this __profile__ function from the result.
+    # discard this __profile__ function and what it called to control the
+    # profiler from the result.
     profiler.stats.discard_child(frame.f_code)
+    profiler.stats.discard_child(profiler.start.__code__)
+    profiler.stats.discard_child(profiler.stop.__code__)
     if dump_filename is None:
         try:
             profiler.run_viewer(get_title(filename), mono=mono)
-- 
2.43.0


From 286ce61a7d71b59829ec21584b1f78da4ee1c092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 26/37] fix: live-profile left the program running when its
 viewer could not be made

---
 profiling/__main__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index b2b644d..3bff2cd 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -608,12 +608,13 @@ def live_profile(script, argv, profiler_factory, interval, spawn, signum,
     if pid:
         # parent
         os.close(stderr_w_fd)
-        viewer, loop = make_viewer(mono)
-        # loop.screen._term_output_file = open(os.devnull, 'w')
-        title = get_title(filename)
-        client = ProfilingClient(viewer, loop.event_loop, parent_sock, title)
-        client.start()
         try:
+            viewer, loop = make_viewer(mono)
+            # loop.screen._term_output_file = open(os.devnull, 'w')
+            title = get_title(filename)
+            client = ProfilingClient(viewer, loop.event_loop, parent_sock,
+                                     title)
+            client.start()
             loop.run()
         except KeyboardInterrupt:
             os.kill(pid, signal.SIGINT)
-- 
2.43.0


From 48159e92dd6e814defac2400087f19d505051ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 27/37] fix: dump and view a wrapped profiler by the class of
 the wrapped one

---
 profiling/profiler.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/profiling/profiler.py b/profiling/profiler.py
index 33083bf..7cd9efe 100644
--- a/profiling/profiler.py
+++ b/profiling/profiler.py
@@ -125,3 +125,11 @@ class ProfilerWrapper(Profiler):
 
     def __init__(self, profiler):
         self.profiler = profiler
+
+    # the wrapper class itself has no table class to view the result by.
+
+    def dump(self, *args, **kwargs):
+        return self.profiler.dump(*args, **kwargs)
+
+    def make_viewer(self, *args, **kwargs):
+        return self.profiler.make_viewer(*args, **kwargs)
-- 
2.43.0


From 6d2773ada8a7f6462feb30abdfe7b42b0af3f43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 28/37] fix: keep reconnecting when the server is too busy or
 unreachable

---
 profiling/remote/client.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/profiling/remote/client.py b/profiling/remote/client.py
index 99b5f7b..b156cd0 100644
--- a/profiling/remote/client.py
+++ b/profiling/remote/client.py
@@ -10,7 +10,9 @@
 from __future__ import absolute_import
 
 from datetime import datetime
-from errno import ECONNREFUSED, EINPROGRESS, ENOENT
+from errno import (
+    EAGAIN, ECONNABORTED, ECONNREFUSED, ECONNRESET, EHOSTDOWN, EHOSTUNREACH,
+    EINPROGRESS, ENETDOWN, ENETUNREACH, ENOENT, ETIMEDOUT)
 import socket
 
 from valuedispatch import valuedispatch
@@ -75,6 +77,12 @@ class ProfilingClient(object):
         self.viewer.inactivate()
 
 
+#: Why a server may not be connectable for now.
+UNAVAILABLE = frozenset([
+    EAGAIN, ECONNABORTED, ECONNREFUSED, ECONNRESET, EHOSTDOWN, EHOSTUNREACH,
+    ENETDOWN, ENETUNREACH, ENOENT, ETIMEDOUT])
+
+
 class FailoverProfilingClient(ProfilingClient):
     """A profiling client but it tries to reconnect constantly."""
 
@@ -96,8 +104,9 @@ class FailoverProfilingClient(ProfilingClient):
             elif errno == EINPROGRESS:
                 # will be connected.
                 break
-            elif errno in (ENOENT, ECONNREFUSED):
-                # no such socket file, or no server listens there.
+            elif errno in UNAVAILABLE:
+                # no such socket file, no server listens there, the server is
+                # too busy to accept, or it cannot be reached for now.
                 self.sock.close()
                 self.create_connection(self.failover_interval)
                 return
-- 
2.43.0


From fa9defdc87a2bb6bc7ab68b32224afdaf56627af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 29/37] fix: do not subtract the stack walk of a return event
 twice

---
 profiling/tracing/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/profiling/tracing/__init__.py b/profiling/tracing/__init__.py
index 491416f..d883a1a 100644
--- a/profiling/tracing/__init__.py
+++ b/profiling/tracing/__init__.py
@@ -102,7 +102,8 @@ class TracingProfiler(Profiler):
             time = time2 - self.overhead
             self.record_entering(time, code, frame_key, parent_stats)
         elif event == 'return':
-            time = time1 - self.overhead
+            # the time until time2 is in the overhead already.
+            time = time2 - self.overhead
             self.record_leaving(time, code, frame_key, parent_stats)
         time3 = self.timer()
         self.overhead += time3 - time2
-- 
2.43.0


From 436bd29453c272da21a444296b3d4a91c348836e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:26 +0000
Subject: [PATCH 30/37] fix: keep the caller of a frame which is ignored itself

---
 profiling/sampling/__init__.py | 3 ++-
 profiling/tracing/__init__.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/profiling/sampling/__init__.py b/profiling/sampling/__init__.py
index d13e851..abf0e74 100644
--- a/profiling/sampling/__init__.py
+++ b/profiling/sampling/__init__.py
@@ -65,7 +65,8 @@ class SamplingProfiler(Profiler):
     def sample(self, frame):
         """Samples the given frame."""
         frames = self.frame_stack(frame)
-        if frames:
+        if frames and frames[-1] is frame:
+            # the frame itself may be ignored.
             frames.pop()
         parent_stats = self.stats
         for f in frames:
diff --git a/profiling/tracing/__init__.py b/profiling/tracing/__init__.py
index d883a1a..84241e5 100644
--- a/profiling/tracing/__init__.py
+++ b/profiling/tracing/__init__.py
@@ -84,7 +84,8 @@ class TracingProfiler(Profiler):
             return
         time1 = self.timer()
         frames = self.frame_stack(frame)
-        if frames:
+        if frames and frames[-1] is frame:
+            # the frame itself may be ignored.
             frames.pop()
         parent_stats = self.stats
         for f in frames:
-- 
2.43.0


From 7a679b56bb8afa6b94d6b779a4b69c677442754a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 31/37] fix: keep serving when a client has gone before it is
 accepted

---
 profiling/remote/select.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/profiling/remote/select.py b/profiling/remote/select.py
index f40b1c6..d7345d1 100644
--- a/profiling/remote/select.py
+++ b/profiling/remote/select.py
@@ -13,7 +13,9 @@
 """
 from __future__ import absolute_import
 
-from errno import EINTR
+from errno import (
+    EAGAIN, ECONNABORTED, EHOSTDOWN, EHOSTUNREACH, EINTR, ENETDOWN,
+    ENETUNREACH, EPROTO)
 import select
 import socket
 import time
@@ -24,6 +26,12 @@ from profiling.remote import ProfilingServer
 __all__ = ['SelectProfilingServer']
 
 
+#: The errors of `accept` which are about the client, see `accept(2)`.
+CLIENT_GONE = frozenset([
+    EAGAIN, ECONNABORTED, EHOSTDOWN, EHOSTUNREACH, EINTR, ENETDOWN,
+    ENETUNREACH, EPROTO])
+
+
 class SelectProfilingServer(ProfilingServer):
 
     def __init__(self, listener, *args, **kwargs):
@@ -98,8 +106,13 @@ class SelectProfilingServer(ProfilingServer):
         for sock in self.select_sockets(timeout=timeout):
             if sock is self.listener:
                 listener = sock
-                sock, addr = listener.accept()
-                self.connected(sock)
+                try:
+                    sock, addr = listener.accept()
+                except socket.error as exc:
+                    if exc.errno not in CLIENT_GONE:
+                        raise
+                else:
+                    self.connected(sock)
             else:
                 try:
                     sock.recv(1)
-- 
2.43.0


From 2aaaaae0c284c4c3f5f4d302ee44c96254e61835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:14 +0000
Subject: [PATCH 32/37] fix: let live-profile notice that the program was
 killed

---
 profiling/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 3bff2cd..cf13e00 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -607,6 +607,7 @@ def live_profile(script, argv, profiler_factory, interval, spawn, signum,
     pid = os.fork()
     if pid:
         # parent
+        child_sock.close()
         os.close(stderr_w_fd)
         try:
             viewer, loop = make_viewer(mono)
@@ -639,6 +640,7 @@ def live_profile(script, argv, profiler_factory, interval, spawn, signum,
         sys.exit(exit_code)
     else:
         # child
+        parent_sock.close()
         os.close(stderr_r_fd)
         # mute stdin, stdout.
         devnull = os.open(os.devnull, os.O_RDWR)
-- 
2.43.0


From 7eea475d490bcdbf7439083cd65d617994734508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 33/37] fix: let live-profile exit with the signal that killed
 the program

---
 profiling/__main__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index cf13e00..12433b9 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -629,7 +629,11 @@ def live_profile(script, argv, profiler_factory, interval, spawn, signum,
         w_pid, status = os.waitpid(pid, os.WNOHANG)
         if w_pid == 0:
             os.kill(pid, signal.SIGTERM)
-        exit_code = os.WEXITSTATUS(status)
+        if os.WIFSIGNALED(status):
+            # killed by a signal, like shells.
+            exit_code = 128 + os.WTERMSIG(status)
+        else:
+            exit_code = os.WEXITSTATUS(status)
         # print stderr of child.
         with os.fdopen(stderr_r_fd, 'r') as f:
             child_stderr = f.read()
-- 
2.43.0


From e16a596e2cbea8687a24cc55b6df571c464ed0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:20 +0000
Subject: [PATCH 34/37] fix: let timeit-profile repeat any statement

---
 profiling/__main__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 12433b9..09dccd0 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -770,8 +770,9 @@ def timeit_profile(stmt, number, repeat, setup,
                 if time.time() - t >= 0.2:
                     break
         del dummy_profiler
-    code = compile('for _ in range(%d): %s' % (number, stmt),
-                   'STATEMENT', 'exec')
+    # indent the statement, which may be a block, like timeit.
+    code = compile('for _i in range(%d):\n %s' %
+                   (number, stmt.replace('\n', '\n ')), 'STATEMENT', 'exec')
     __profile__(stmt, code, globals_, profiler_factory,
                 pickle_protocol=pickle_protocol, dump_filename=dump_filename,
                 mono=mono)
-- 
2.43.0


From cbd31dc29b9491438ceb0827c64c8378e080ebf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:27 +0000
Subject: [PATCH 35/37] fix: keep showing the (paused) result when the profiler
 class changes

---
 profiling/viewer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/profiling/viewer.py b/profiling/viewer.py
index af4e088..8cca0f5 100644
--- a/profiling/viewer.py
+++ b/profiling/viewer.py
@@ -630,8 +630,6 @@ class StatisticsTable(urwid.WidgetWrap):
             widget = self.thead.base_widget.contents[x][0]
             text, __ = widget.get_text()
             widget.set_text((attr, text))
-        if self.viewer.paused:
-            return
         # Update header.
         stats = self.get_stats()
         if stats is None:
@@ -802,6 +800,8 @@ class StatisticsViewer(object):
             return
         self.table = table_class(self)
         self.widget.original_widget = self.table
+        # the new table also shows what the old one did.
+        self.update_result()
 
     def set_result(self, stats, cpu_time=0.0, wall_time=0.0,
                    title=None, at=None):
-- 
2.43.0


From fcce595c4dd638b22fa9a0890ed5097d11f40780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:21 +0000
Subject: [PATCH 36/37] fix: let the ignored -t, -c and -v of timeit-profile
 take no value, as timeit's do

---
 profiling/__main__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 09dccd0..bd979e9 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -745,9 +745,9 @@ def view(src, mono):
               help='How many times to repeat the timer.')
 @click.option('-s', '--setup', default='pass',
               help='Statement to be executed once initially.')
-@click.option('-t', '--time', help='Ignored.')
-@click.option('-c', '--clock', help='Ignored.')
-@click.option('-v', '--verbose', help='Ignored.')
+@click.option('-t', '--time', is_flag=True, help='Ignored.')
+@click.option('-c', '--clock', is_flag=True, help='Ignored.')
+@click.option('-v', '--verbose', is_flag=True, help='Ignored.')
 @profiler_options
 @onetime_profiler_options
 @viewer_options
-- 
2.43.0


From 46d009e69ba3a0e17e40326c67f9b934cfd61168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:15 +0000
Subject: [PATCH 37/37] fix: export the pack_msg that exists from
 profiling.remote

---
 profiling/remote/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index bfc1639..8e1bf79 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -29,7 +29,7 @@ from profiling.__about__ import __version__
 
 
 __all__ = ['LOGGER', 'LOG', 'INTERVAL', 'PICKLE_PROTOCOL',
-           'SIZE_STRUCT_FORMAT', 'pack_result', 'recv_msg', 'fmt_connected',
+           'SIZE_STRUCT_FORMAT', 'pack_msg', 'recv_msg', 'fmt_connected',
            'fmt_disconnected', 'fmt_profiler_started', 'fmt_profiler_stopped',
            'ProfilingServer']
 
-- 
2.43.0

