From c0e853ae13b5247288645fd17414a4789203ce25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:07 +0000
Subject: [PATCH 01/23] fix: grow sub_roi by the facing context when looking
 for reading blocks

With asymmetric contexts, downstream() of a block missed blocks of a dependent
task that read its output (and listed ones that do not), so that it was not the
inverse of upstream().
---
 daisy/dependency_graph.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index 9d38bdb..bb11428 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -504,9 +504,12 @@ class BlockwiseDependencyGraph:
             # if we want to get blocks whose read_roi overlaps with sub_roi
             # simply grow the sub_roi by the block context. That way we
             # only need to check if a blocks read_roi overlaps with sub_roi.
-            # This is the same behavior as when we want write_roi overlap
+            # This is the same behavior as when we want write_roi overlap.
+            # A block reads up to the upper context beyond the end of its
+            # write_roi, so it can reach sub_roi from that far below (and vice
+            # versa), i.e., the contexts swap sides.
             sub_roi = sub_roi.grow(
-                self.read_write_context[0], self.read_write_context[1]
+                self.read_write_context[1], self.read_write_context[0]
             )
 
         # TODO: handle unsatisfiable sub_rois
-- 
2.43.0


From ba4c4b1caa93348dd07f85014183d5f69a9315ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:07 +0000
Subject: [PATCH 02/23] fix: no blocks intersect a sub_roi outside of the
 task's write ROI

get_subgraph_blocks() raised a TypeError, i.e., tasks that depend on each other
but cover different regions could not be scheduled.
---
 daisy/dependency_graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index bb11428..c95aa54 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -512,10 +512,10 @@ class BlockwiseDependencyGraph:
                 self.read_write_context[1], self.read_write_context[0]
             )
 
-        # TODO: handle unsatisfiable sub_rois
-        # i.e. sub_roi is outside of *total_write_roi
-        # after accounting for padding
         sub_roi = sub_roi.intersect(self.total_write_roi)
+        if sub_roi.empty:
+            # sub_roi is outside of total_write_roi, no block touches it
+            return []
 
         # get sub_roi relative to the write roi
         begin = sub_roi.begin - self.total_write_roi.offset
-- 
2.43.0


From 147756240582f7cb5b30a3dd12757a6a5ecf65ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:07 +0000
Subject: [PATCH 03/23] fix: consider the overhanging part of blocks in
 get_subgraph_blocks

A block of a dependent task that reads only what an upstream block writes beyond
the total write ROI (fit="overhang") was not made to wait for that block, and
upstream() and downstream() disagreed about it.
---
 daisy/dependency_graph.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index c95aa54..2446c61 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -512,9 +512,15 @@ class BlockwiseDependencyGraph:
                 self.read_write_context[1], self.read_write_context[0]
             )
 
-        sub_roi = sub_roi.intersect(self.total_write_roi)
+        write_roi = self.total_write_roi
+        if self.fit == "overhang":
+            # blocks on the upper boundary write beyond total_write_roi
+            write_roi = write_roi.grow(
+                0, -write_roi.shape % self.block_write_roi.shape
+            )
+        sub_roi = sub_roi.intersect(write_roi)
         if sub_roi.empty:
-            # sub_roi is outside of total_write_roi, no block touches it
+            # sub_roi is outside of the written region, no block touches it
             return []
 
         # get sub_roi relative to the write roi
-- 
2.43.0


From 44e9f72b31419cfb74cb499d52d5c14d26e40955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:42 +0000
Subject: [PATCH 04/23] fix: schedule blocks of dependent tasks that have no
 upstream blocks

Blocks of a task with upstream tasks were only ever queued when one of their
upstream blocks succeeded. Blocks outside of the region written by the upstream
tasks (and everything depending on them) were never handed out, and the task
never finished.
---
 daisy/dependency_graph.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index 2446c61..76574e4 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -624,10 +624,19 @@ class DependencyGraph:
 
     def roots(self):
         root_tasks = self.root_tasks()
-        return {
+        roots = {
             task_id: (self.num_roots(task_id), self.root_gen(task_id))
             for task_id in root_tasks
         }
+        for task_id in self.task_ids:
+            if task_id in roots:
+                continue
+            # blocks that read nothing of what the upstream tasks write do not
+            # have to wait for any other block
+            blocks = [b for b in self.root_gen(task_id) if not self.upstream(b)]
+            if blocks:
+                roots[task_id] = (len(blocks), iter(blocks))
+        return roots
 
     def __add_task(self, task):
         if task.task_id not in self.task_map:
-- 
2.43.0


From ff1305057de9911496996c2751925e7b97ec837c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:42 +0000
Subject: [PATCH 05/23] fix: never count an orphaned block twice

An orphan is dropped from the boundary once none of its upstream nodes is in the
surface anymore. If an upstream node that was not yet processed at that point
fails later, the orphan was added to the boundary and counted again, such that
the counts of the task never add up and the task is never considered done.
---
 daisy/ready_surface.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/daisy/ready_surface.py b/daisy/ready_surface.py
index e014d30..ef02901 100644
--- a/daisy/ready_surface.py
+++ b/daisy/ready_surface.py
@@ -25,6 +25,8 @@ class ReadySurface:
 
         self.surface = set()
         self.boundary = set()
+        # all nodes that were already reported as orphans
+        self.orphans = set()
 
     def mark_success(self, node):
         """
@@ -131,6 +133,11 @@ class ReadySurface:
         if len(list(self.upstream(node))) == 0:
             self.boundary.remove(node)
 
+        # an orphan that left the boundary can be reached again by the failure
+        # of another upstream node, don't count it twice
+        orphans -= self.orphans
+        self.orphans |= orphans
+
         return orphans
 
     def __add_to_boundary(self, node):
-- 
2.43.0


From 5407dca063e592bb3de197792c3139934a92b9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:42 +0000
Subject: [PATCH 06/23] fix: do not fail retried blocks in SerialServer because
 of the last attempt

A block that failed once kept its FAILED status, so that each retry was counted
as a failure even if processing succeeded.
---
 daisy/serial_server.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/daisy/serial_server.py b/daisy/serial_server.py
index e241862..daa90a0 100644
--- a/daisy/serial_server.py
+++ b/daisy/serial_server.py
@@ -43,6 +43,8 @@ class SerialServer(ServerObservee):
                 self.notify_acquire_block(
                     block.task_id, scheduler.task_states[block.task_id]
                 )
+                # a retried block still has the status of the failed attempt
+                block.status = BlockStatus.PROCESSING
                 process_funcs[block.task_id](block)
                 if not block.status == BlockStatus.FAILED:
                     # unless explicitly set to failed, we assume the block is successful
-- 
2.43.0


From 5d1be7358e664dea8582b9564688addca439100c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:42 +0000
Subject: [PATCH 07/23] fix: continue with downstream tasks in SerialServer if
 all blocks are skipped

If the check_function skipped all blocks of all ready tasks, the server stopped
and left the tasks depending on them unprocessed.
---
 daisy/serial_server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/daisy/serial_server.py b/daisy/serial_server.py
index daa90a0..e73731f 100644
--- a/daisy/serial_server.py
+++ b/daisy/serial_server.py
@@ -34,6 +34,10 @@ class SerialServer(ServerObservee):
                     if block is not None:
                         break
                 if block is None:
+                    if scheduler.get_ready_tasks():
+                        # all ready blocks were skipped, which made blocks of
+                        # other tasks available
+                        continue
                     break
                 if block.task_id not in started_tasks:
                     self.notify_task_start(
-- 
2.43.0


From a08d0e72558259ed27a8392c576550bd1c8ea2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:43 +0000
Subject: [PATCH 08/23] fix: report a block lost by both a closed stream and a
 timeout once

get_lost_blocks() raised a KeyError on the second occurrence.
---
 daisy/block_bookkeeper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/daisy/block_bookkeeper.py b/daisy/block_bookkeeper.py
index 5b5ad67..4496c14 100644
--- a/daisy/block_bookkeeper.py
+++ b/daisy/block_bookkeeper.py
@@ -73,6 +73,7 @@ class BlockBookkeeper:
             # is the stream to the client still alive?
             if log.stream.closed():
                 lost_block_ids.append(block_id)
+                continue
 
             # did processing time out?
             if self.processing_timeout is not None:
-- 
2.43.0


From 632e4fd7060b3faaa920638589e7bc5ba9a86211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:43 +0000
Subject: [PATCH 09/23] fix: retry to find a free port

self.max_port_tries does not exist, the first failed attempt raised an
AttributeError.
---
 daisy/tcp/tcp_server.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/daisy/tcp/tcp_server.py b/daisy/tcp/tcp_server.py
index aee63e4..33562b4 100644
--- a/daisy/tcp/tcp_server.py
+++ b/daisy/tcp/tcp_server.py
@@ -35,10 +35,9 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
                 break
 
             except OSError:
-                if i == self.max_port_tries - 1:
+                if i == max_port_tries - 1:
                     raise NoFreePort(
-                        "Could not find a free port after %d tries "
-                        % self.max_port_tries
+                        "Could not find a free port after %d tries " % max_port_tries
                     )
 
         self.address = self._get_address(host)
-- 
2.43.0


From 93bcda53180674964f464a74abdbab24f2b36773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:43 +0000
Subject: [PATCH 10/23] fix: run_blockwise returns False if blocks failed

As documented, the return value should tell whether all blocks were successfully
run. is_done() is also True for tasks with failed and orphaned blocks.
---
 daisy/convenience.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/daisy/convenience.py b/daisy/convenience.py
index b668f2b..4ddfb4e 100644
--- a/daisy/convenience.py
+++ b/daisy/convenience.py
@@ -57,4 +57,7 @@ def _run_blockwise(tasks, stop_event):
     server = Server(stop_event=stop_event)
     cl_monitor = CLMonitor(server)  # noqa
     task_states = server.run_blockwise(tasks)
-    return all(task_state.is_done() for task_state in task_states.values())
+    return all(
+        task_state.completed_count == task_state.total_block_count
+        for task_state in task_states.values()
+    )
-- 
2.43.0


From ce2f85625739f05dda949b56a7ff9a90675e4523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:43 +0000
Subject: [PATCH 11/23] fix: tasks with a total ROI too small for a single
 block have zero blocks

Such tasks raised an IndexError (read_write_conflict=True) or could report a
wrong number of blocks (read_write_conflict=False).
---
 daisy/dependency_graph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index 76574e4..eb1876e 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -177,13 +177,16 @@ class BlockwiseDependencyGraph:
         return fit_block
 
     def num_roots(self):
+        if self.num_levels == 0:
+            # total ROI is too small for a single block
+            return 0
         return self._num_level_blocks(0)
 
     def _num_level_blocks(self, level):
         level_offset = self._level_offsets[level]
 
         axis_blocks = [
-            (e - lo + s - r) // s
+            max(0, (e - lo + s - r) // s)
             for lo, e, s, r in zip(
                 level_offset,
                 self.total_write_roi.shape,
-- 
2.43.0


From cf0e1ae813d5403a6f91547cc0e23cd797ec4737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:15 +0000
Subject: [PATCH 12/23] fix: escape : and = in context values passed through
 the environment

A task name, host, or log directory with one of those characters made every
worker fail to parse its context (or read a different one).
---
 daisy/context.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/daisy/context.py b/daisy/context.py
index b53dec0..7ce54df 100644
--- a/daisy/context.py
+++ b/daisy/context.py
@@ -16,7 +16,9 @@ class Context:
         return copy.deepcopy(self)
 
     def to_env(self):
-        return ":".join("%s=%s" % (k, v) for k, v in self.__dict.items())
+        return ":".join(
+            "%s=%s" % (k, self.__escape(str(v))) for k, v in self.__dict.items()
+        )
 
     def __setitem__(self, k, v):
         k = str(k)
@@ -51,6 +53,14 @@ class Context:
 
         for token in tokens:
             k, v = token.split("=")
-            context[k] = v
+            context.__dict[k] = Context.__unescape(v)
 
         return context
+
+    @staticmethod
+    def __escape(value):
+        return value.replace("%", "%25").replace(":", "%3A").replace("=", "%3D")
+
+    @staticmethod
+    def __unescape(value):
+        return value.replace("%3D", "=").replace("%3A", ":").replace("%25", "%")
-- 
2.43.0


From 6cae8e9952eb1ba592a7bd65526633057dd170d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:15 +0000
Subject: [PATCH 13/23] fix: generate no root blocks for tasks with a too small
 total ROI

---
 daisy/dependency_graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index eb1876e..3e900d2 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -225,6 +225,9 @@ class BlockwiseDependencyGraph:
                 raise RuntimeError("Unreachable!")
 
     def root_gen(self):
+        if self.num_levels == 0:
+            # total ROI is too small for a single block
+            return
         blocks = self.level_blocks(level=0)
         for block in blocks:
             yield self.fit_block(block)
-- 
2.43.0


From 38adc78309e4c3c3732b8e98f87f15859f4254d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:11 +0000
Subject: [PATCH 14/23] fix: delayed requests for one task do not block those
 for other tasks

Delayed requests were only answered for the first task that has any. If those
could not be answered yet, the (answerable) requests for other tasks starved,
which is a deadlock if the first task depends on them.
---
 daisy/server.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/daisy/server.py b/daisy/server.py
index 011c38f..0206cd0 100644
--- a/daisy/server.py
+++ b/daisy/server.py
@@ -93,6 +93,12 @@ class Server(ServerObservee):
             if self.pending_requests[task_id].empty():
                 continue
 
+            task_state = self.scheduler.task_states[task_id]
+            if task_state.ready_count == 0 and task_state.pending_count > 0:
+                # still waiting for dependencies, don't hold up requests for
+                # other tasks
+                continue
+
             logger.debug("Answering delayed request for task %s", task_id)
             return self.pending_requests[task_id].get()
 
-- 
2.43.0


From 9ea6d436f8f1232abad87e3f47ece042719aed05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:08 +0000
Subject: [PATCH 15/23] fix: do not hand out blocks to workers that are gone

A delayed request of a worker that died in the meantime was answered with a
block, which was then lost and used up one of its retries (or failed for good)
without ever being processed.
---
 daisy/server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/daisy/server.py b/daisy/server.py
index 0206cd0..de91304 100644
--- a/daisy/server.py
+++ b/daisy/server.py
@@ -131,6 +131,10 @@ class Server(ServerObservee):
     def _handle_acquire_block(self, message):
         logger.debug("Received block request for task %s", message.task_id)
 
+        if message.stream.closed():
+            # the worker is gone, don't waste a block (and a retry) on it
+            return
+
         task_state = self.scheduler.task_states[message.task_id]
 
         logger.debug("Current task state: %s", task_state)
-- 
2.43.0


From 48cd7e187da2887f1b921600ec1f574003d8d548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:27 +0000
Subject: [PATCH 16/23] fix: clients get no block if the server is gone before
 they request it

The closed connection was only handled while waiting for the answer, a request
sent after the server closed the connection raised StreamClosedError or
NotConnected in the worker.
---
 daisy/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/daisy/client.py b/daisy/client.py
index 3fa6fa0..e150a20 100644
--- a/daisy/client.py
+++ b/daisy/client.py
@@ -11,6 +11,7 @@ from .messages import (
 )
 from contextlib import contextmanager
 from daisy.tcp import TCPClient, StreamClosedError
+from daisy.tcp.exceptions import NotConnected
 import logging
 
 logger = logging.getLogger(__name__)
@@ -69,12 +70,12 @@ class Client:
     @contextmanager
     def acquire_block(self):
         """API for client to get a new block."""
-        self.tcp_client.send_message(AcquireBlock(self.task_id))
         message = None
         try:
+            self.tcp_client.send_message(AcquireBlock(self.task_id))
             while message is None:
                 message = self.tcp_client.get_message(timeout=0.1)
-        except StreamClosedError:
+        except (StreamClosedError, NotConnected):
             logger.debug("TCP stream was closed, server is probably down")
             yield
             return
-- 
2.43.0


From 4b06a44e8be107c97927e69d5cf2e03edcd034bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:42 +0000
Subject: [PATCH 17/23] fix: do not replace failing workers that are already
 gone

---
 daisy/task_worker_pools.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/daisy/task_worker_pools.py b/daisy/task_worker_pools.py
index e37b90a..807e0ee 100644
--- a/daisy/task_worker_pools.py
+++ b/daisy/task_worker_pools.py
@@ -67,5 +67,7 @@ class TaskWorkerPools(ServerObserver):
 
             self.failure_counts[task_id][worker_id] = 0
             worker_pool = self.worker_pools[task_id]
-            worker_pool.stop(worker_id)
-            worker_pool.inc_num_workers(1)
+            if worker_id in worker_pool.workers:
+                # otherwise, the worker was already stopped or replaced
+                worker_pool.stop(worker_id)
+                worker_pool.inc_num_workers(1)
-- 
2.43.0


From 731f7002007fe044499ee081194a4bda9c119a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:42 +0000
Subject: [PATCH 18/23] fix: exceptions that can not be pickled or restored
 fail only their block

---
 daisy/messages/message.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/daisy/messages/message.py b/daisy/messages/message.py
index cbc362c..b128fa1 100644
--- a/daisy/messages/message.py
+++ b/daisy/messages/message.py
@@ -1,5 +1,6 @@
 from daisy.tcp import TCPMessage
 import logging
+import pickle
 
 logger = logging.getLogger(__name__)
 
@@ -19,3 +20,23 @@ class ExceptionMessage(Message):
 
     def __init__(self, exception):
         self.exception = exception
+
+    def __getstate__(self):
+        # exceptions of user code can be anything, in particular such that they
+        # can not be pickled here or not be restored by the receiver. Neither
+        # must affect the message itself.
+        state = self.__dict__.copy()
+        try:
+            pickled = pickle.dumps(self.exception)
+        except Exception:
+            pickled = None
+        state["exception"] = (pickled, repr(self.exception))
+        return state
+
+    def __setstate__(self, state):
+        pickled, description = state["exception"]
+        try:
+            exception = pickle.loads(pickled)
+        except Exception:
+            exception = RuntimeError(description)
+        self.__dict__.update(state, exception=exception)
-- 
2.43.0


From 752ca9de83249cc5ab7c4d4b2b6be720f43e8360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:58 +0000
Subject: [PATCH 19/23] fix: worker exceptions that can not be pickled or
 restored still end the run

---
 daisy/worker.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/daisy/worker.py b/daisy/worker.py
index 6e48529..e6dd55e 100644
--- a/daisy/worker.py
+++ b/daisy/worker.py
@@ -3,6 +3,7 @@ import daisy.logging as daisy_logging
 import logging
 import multiprocessing
 import os
+import pickle
 import queue
 import dill
 
@@ -102,6 +103,12 @@ class Worker:
         except Exception as e:
             logger.error("%s received exception: %s", self, e)
             if self.error_queue:
+                try:
+                    pickle.loads(pickle.dumps(e))
+                except Exception:
+                    # this exception would not make it through the queue
+                    e = RuntimeError(repr(e))
+
                 try:
                     self.error_queue.put(e, timeout=1)
                 except queue.Full:
-- 
2.43.0


From ec9edb868d2bc072e445cde06bd09d7676541271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:58 +0000
Subject: [PATCH 20/23] fix: errors of workers are raised even if they look
 like an empty queue

---
 daisy/worker_pool.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/daisy/worker_pool.py b/daisy/worker_pool.py
index d400dbb..97190b0 100644
--- a/daisy/worker_pool.py
+++ b/daisy/worker_pool.py
@@ -97,10 +97,11 @@ class WorkerPool:
 
         try:
             error = self.error_queue.get(block=False)
-            logger.debug("Got error: %s", error)
-            raise error
         except queue.Empty:
-            pass
+            return
+
+        logger.debug("Got error: %s", error)
+        raise error
 
     def reap_dead_workers(self):
         """Detect worker processes that have exited. Dead workers
-- 
2.43.0


From ce539975636a56508aa7a708f9a769ed132519b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:37 +0000
Subject: [PATCH 21/23] fix: pass on a log directory of None to workers

With logging to files disabled, clients in workers took the text 'None' for
the name of the log directory.
---
 daisy/context.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/daisy/context.py b/daisy/context.py
index 7ce54df..f4182ba 100644
--- a/daisy/context.py
+++ b/daisy/context.py
@@ -16,8 +16,10 @@ class Context:
         return copy.deepcopy(self)
 
     def to_env(self):
+        # None is passed on without "=", see from_env
         return ":".join(
-            "%s=%s" % (k, self.__escape(str(v))) for k, v in self.__dict.items()
+            "%s=%s" % (k, self.__escape(str(v))) if v is not None else k
+            for k, v in self.__dict.items()
         )
 
     def __setitem__(self, k, v):
@@ -52,8 +54,8 @@ class Context:
         context = Context()
 
         for token in tokens:
-            k, v = token.split("=")
-            context.__dict[k] = Context.__unescape(v)
+            k, has_value, v = token.partition("=")
+            context.__dict[k] = Context.__unescape(v) if has_value else None
 
         return context
 
-- 
2.43.0


From d3b5cd38a4846088956468c15a8138e0a01d9cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:37 +0000
Subject: [PATCH 22/23] fix: wrap logging handlers only once

Every run in the same process added another layer around handlers that write
to a terminal, until logging failed with a RecursionError.
---
 daisy/cl_monitor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/daisy/cl_monitor.py b/daisy/cl_monitor.py
index 55a0d18..9ae36cf 100644
--- a/daisy/cl_monitor.py
+++ b/daisy/cl_monitor.py
@@ -69,7 +69,8 @@ class CLMonitor(ServerObserver):
 
     def _is_tty_stream_handler(self, handler):
         return (
-            hasattr(handler, "stream")
+            not isinstance(handler, TqdmLoggingHandler)
+            and hasattr(handler, "stream")
             and hasattr(handler.stream, "isatty")
             and handler.stream.isatty()
         )
-- 
2.43.0


From 3b7dea61837f04fa37e7320e727ec21bcc0119c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:37 +0000
Subject: [PATCH 23/23] fix: do not refer to log files in the summary if there
 are none

Without a log directory, the summary of a run with failures named the files
'None.err / .out'.
---
 daisy/cl_monitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daisy/cl_monitor.py b/daisy/cl_monitor.py
index 9ae36cf..dea359f 100644
--- a/daisy/cl_monitor.py
+++ b/daisy/cl_monitor.py
@@ -141,7 +141,7 @@ class CLMonitor(ServerObserver):
                     diff = len(summary.block_failures) - max_entries
                     print(f"      (and {diff} more)")
 
-            if num_block_failures > 0:
+            if num_block_failures > 0 and daisy_logging.get_log_basedir() is not None:
                 print()
                 print("    See worker logs for details:")
                 print()
-- 
2.43.0

