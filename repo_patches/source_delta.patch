From 0340e58accef3455cf55201fb1b70d9a9a35c1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:35 +0000
Subject: [PATCH 01/37] fix: region queries outside of a task's output return
 no blocks

A block of a downstream task that does not touch the output of an upstream
task (or vice versa) made get_subgraph_blocks() fail with a TypeError, which
aborted the whole run.
---
 daisy/dependency_graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index 9d38bdb..24b6fae 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -509,10 +509,10 @@ class BlockwiseDependencyGraph:
                 self.read_write_context[0], self.read_write_context[1]
             )
 
-        # TODO: handle unsatisfiable sub_rois
-        # i.e. sub_roi is outside of *total_write_roi
-        # after accounting for padding
+        # no block can cover a sub_roi that is outside of the total_write_roi
         sub_roi = sub_roi.intersect(self.total_write_roi)
+        if sub_roi.empty:
+            return []
 
         # get sub_roi relative to the write roi
         begin = sub_roi.begin - self.total_write_roi.offset
-- 
2.43.0


From 3e7db9efdee56af8345e1ea2a3b57033ace1471f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:35 +0000
Subject: [PATCH 02/37] fix: swap contexts when looking for blocks that read
 from a region

With asymmetric contexts, downstream() returned blocks that do not read from
the given block and missed some that do, so dependent blocks were never
released.
---
 daisy/dependency_graph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index 24b6fae..0d15bb7 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -504,9 +504,11 @@ class BlockwiseDependencyGraph:
             # if we want to get blocks whose read_roi overlaps with sub_roi
             # simply grow the sub_roi by the block context. That way we
             # only need to check if a blocks read_roi overlaps with sub_roi.
-            # This is the same behavior as when we want write_roi overlap
+            # This is the same behavior as when we want write_roi overlap.
+            # A block below sub_roi reaches it with its upper context (and
+            # vice versa), so the two contexts are swapped here.
             sub_roi = sub_roi.grow(
-                self.read_write_context[0], self.read_write_context[1]
+                self.read_write_context[1], self.read_write_context[0]
             )
 
         # no block can cover a sub_roi that is outside of the total_write_roi
-- 
2.43.0


From 4fb219b85128c37e817e4561386ef6249c38a6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:35 +0000
Subject: [PATCH 03/37] fix: region queries consider what blocks actually cover

With fit='overhang', blocks write beyond the total write ROI. Region queries
ignored that part, such that upstream() and downstream() disagreed.
---
 daisy/dependency_graph.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index 0d15bb7..56b6556 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -155,6 +155,19 @@ class BlockwiseDependencyGraph:
             num_blocks += self._num_level_blocks(level)
         return num_blocks
 
+    @property
+    def covered_write_roi(self):
+        """The region covered by the write ROIs of all blocks: smaller than
+        ``total_write_roi`` if blocks that do not fit are skipped ("valid"),
+        and larger if they overhang ("overhang")."""
+        block_shape = self.block_write_roi.shape
+        shape = self.total_write_roi.shape
+        if self.fit == "valid":
+            shape = shape.floor_division(block_shape) * block_shape
+        elif self.fit == "overhang":
+            shape = shape.ceil_division(block_shape) * block_shape
+        return Roi(self.total_write_roi.offset, shape)
+
     @property
     def inclusion_criteria(self):
         # TODO: Can't we remove this entirely by pre computing the write_roi
@@ -511,8 +524,8 @@ class BlockwiseDependencyGraph:
                 self.read_write_context[1], self.read_write_context[0]
             )
 
-        # no block can cover a sub_roi that is outside of the total_write_roi
-        sub_roi = sub_roi.intersect(self.total_write_roi)
+        # no block can cover a sub_roi that is outside of the covered_write_roi
+        sub_roi = sub_roi.intersect(self.covered_write_roi)
         if sub_roi.empty:
             return []
 
-- 
2.43.0


From 12d3c09d287e04ba393b174410f8a326eb27e432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:36 +0000
Subject: [PATCH 04/37] fix: tasks without any fitting block have zero blocks

Scheduling a task with fit='valid' and a total ROI smaller than a block failed
with an IndexError, and negative per-axis counts could multiply to a positive
number of blocks.
---
 daisy/dependency_graph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index 56b6556..51850e7 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -190,13 +190,16 @@ class BlockwiseDependencyGraph:
         return fit_block
 
     def num_roots(self):
+        if self.num_levels == 0:
+            # no block fits into the total ROI
+            return 0
         return self._num_level_blocks(0)
 
     def _num_level_blocks(self, level):
         level_offset = self._level_offsets[level]
 
         axis_blocks = [
-            (e - lo + s - r) // s
+            max(0, (e - lo + s - r) // s)
             for lo, e, s, r in zip(
                 level_offset,
                 self.total_write_roi.shape,
-- 
2.43.0


From 237d17961c7684506b35fc74fa25ceea126da767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:36 +0000
Subject: [PATCH 05/37] fix: schedule blocks of downstream tasks that have no
 dependencies

Blocks of a task with upstream tasks, which do not read from any upstream
block, were never released: the run could not finish.
---
 daisy/dependency_graph.py | 40 +++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index 51850e7..b214766 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -626,18 +626,50 @@ class DependencyGraph:
         ]
 
     def num_roots(self, task_id):
-        return self.task_dependency_graphs[task_id].num_roots()
+        if len(self.upstream_tasks[task_id]) == 0:
+            return self.task_dependency_graphs[task_id].num_roots()
+        return sum(1 for _ in self.root_gen(task_id))
 
     def root_gen(self, task_id):
-        return self.task_dependency_graphs[task_id].root_gen()
+        """Generate all blocks of a task that do not depend on any other block.
+
+        In a task with upstream tasks, those are the blocks that do not read
+        from any of the blocks of the upstream tasks."""
+        roots = self.task_dependency_graphs[task_id].root_gen()
+        if len(self.upstream_tasks[task_id]) == 0:
+            return roots
+        if self.__reads_from_upstream_everywhere(task_id):
+            return iter(())
+        return (block for block in roots if len(self.upstream(block)) == 0)
 
     def roots(self):
-        root_tasks = self.root_tasks()
         return {
             task_id: (self.num_roots(task_id), self.root_gen(task_id))
-            for task_id in root_tasks
+            for task_id in self.task_ids
         }
 
+    def __reads_from_upstream_everywhere(self, task_id):
+        """Quick test (without enumerating blocks) for the common case that
+        every block of the task reads from a block of an upstream task."""
+        graph = self.task_dependency_graphs[task_id]
+        write_roi = graph.covered_write_roi
+        context = graph.read_write_context
+        # a lower bound on the end and an upper bound on the begin of the read
+        # ROIs of all blocks of this task
+        min_end = write_roi.begin + 1 + context[1]
+        max_begin = write_roi.end - 1 - context[0]
+
+        for upstream_task in self.upstream_tasks[task_id]:
+            upstream = self.task_dependency_graphs[upstream_task].covered_write_roi
+            if not upstream.empty and all(
+                e > ub and b < ue
+                for e, b, ub, ue in zip(
+                    min_end, max_begin, upstream.begin, upstream.end
+                )
+            ):
+                return True
+        return False
+
     def __add_task(self, task):
         if task.task_id not in self.task_map:
             self.task_map[task.task_id] = task
-- 
2.43.0


From b35de034c69781f8757987617dfc9eb65da6498d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:36 +0000
Subject: [PATCH 06/37] fix: do not count an orphan more than once

An orphan leaves the boundary as soon as none of its upstream nodes is in the
surface, and was counted again if another one of its upstream nodes failed
later. The task was then never (or too early) considered done.
---
 daisy/ready_surface.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/daisy/ready_surface.py b/daisy/ready_surface.py
index e014d30..b028db0 100644
--- a/daisy/ready_surface.py
+++ b/daisy/ready_surface.py
@@ -26,6 +26,10 @@ class ReadySurface:
         self.surface = set()
         self.boundary = set()
 
+        # all orphans found so far: an orphan can leave the boundary before all
+        # of its upstream nodes are processed, and must not be counted again
+        self.orphans = set()
+
     def mark_success(self, node):
         """
         Update surface and boundary to account for a `node` marked as a
@@ -106,12 +110,13 @@ class ReadySurface:
         orphans = set()
         while len(down_nodes) > 0:
             down_node = down_nodes.pop()
-            if self.__add_to_boundary(down_node):
+            if self.__add_to_boundary(down_node) and down_node not in self.orphans:
                 # check if any nodes downstream of this node are also boundary
                 # nodes.
                 new_nodes = set(self.downstream(down_node)) - orphans
                 down_nodes = down_nodes.union(new_nodes)
                 orphans.add(down_node)
+        self.orphans |= orphans
 
         # check if any of the upstream nodes can be removed from surface
         for up_node in up_nodes:
-- 
2.43.0


From 88e65bb440ad607bcd78a08df30949e3bc8ccd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:04 +0000
Subject: [PATCH 07/37] fix: serial retries start with a clean block status

A block that failed once kept its FAILED status, such that no retry could
ever succeed.
---
 daisy/serial_server.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/daisy/serial_server.py b/daisy/serial_server.py
index e241862..2208cbd 100644
--- a/daisy/serial_server.py
+++ b/daisy/serial_server.py
@@ -43,6 +43,8 @@ class SerialServer(ServerObservee):
                 self.notify_acquire_block(
                     block.task_id, scheduler.task_states[block.task_id]
                 )
+                # a retried block still carries the status of its last attempt
+                block.status = BlockStatus.PROCESSING
                 process_funcs[block.task_id](block)
                 if not block.status == BlockStatus.FAILED:
                     # unless explicitly set to failed, we assume the block is successful
-- 
2.43.0


From 18fc91b32deac5624b40a20f6c670ceb1b6e51b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:04 +0000
Subject: [PATCH 08/37] fix: serial server continues after skipping all ready
 blocks

If all ready blocks were already done, the run ended although skipping them
made blocks of downstream tasks available.
---
 daisy/serial_server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/daisy/serial_server.py b/daisy/serial_server.py
index 2208cbd..f2e8a25 100644
--- a/daisy/serial_server.py
+++ b/daisy/serial_server.py
@@ -34,6 +34,10 @@ class SerialServer(ServerObservee):
                     if block is not None:
                         break
                 if block is None:
+                    if len(scheduler.get_ready_tasks()) > 0:
+                        # all blocks that were ready have been skipped, which
+                        # made blocks of other tasks available
+                        continue
                     break
                 if block.task_id not in started_tasks:
                     self.notify_task_start(
-- 
2.43.0


From 2861ef952f15529158c9998ee7b59cdf47e16bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:04 +0000
Subject: [PATCH 09/37] fix: report a block lost once if it is both
 disconnected and timed out

---
 daisy/block_bookkeeper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daisy/block_bookkeeper.py b/daisy/block_bookkeeper.py
index 5b5ad67..dbb02a3 100644
--- a/daisy/block_bookkeeper.py
+++ b/daisy/block_bookkeeper.py
@@ -75,7 +75,7 @@ class BlockBookkeeper:
                 lost_block_ids.append(block_id)
 
             # did processing time out?
-            if self.processing_timeout is not None:
+            elif self.processing_timeout is not None:
                 if time.time() - log.time_sent > self.processing_timeout:
                     lost_block_ids.append(block_id)
 
-- 
2.43.0


From 177ae1d83cde1bfffe70c6b44b66511d678c7997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:04 +0000
Subject: [PATCH 10/37] fix: run_blockwise returns False if blocks failed

A task is also done if its blocks failed or were orphaned.
---
 daisy/convenience.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/daisy/convenience.py b/daisy/convenience.py
index b668f2b..4ddfb4e 100644
--- a/daisy/convenience.py
+++ b/daisy/convenience.py
@@ -57,4 +57,7 @@ def _run_blockwise(tasks, stop_event):
     server = Server(stop_event=stop_event)
     cl_monitor = CLMonitor(server)  # noqa
     task_states = server.run_blockwise(tasks)
-    return all(task_state.is_done() for task_state in task_states.values())
+    return all(
+        task_state.completed_count == task_state.total_block_count
+        for task_state in task_states.values()
+    )
-- 
2.43.0


From 80129151ebf123f54680a08a64f1da18270d7f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:04 +0000
Subject: [PATCH 11/37] fix: unanswerable requests do not starve requests of
 other tasks

The delayed requests of the first task with delayed requests were retried
forever, such that delayed requests of other tasks were never answered.
---
 daisy/server.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/daisy/server.py b/daisy/server.py
index 011c38f..b09e455 100644
--- a/daisy/server.py
+++ b/daisy/server.py
@@ -93,6 +93,11 @@ class Server(ServerObservee):
             if self.pending_requests[task_id].empty():
                 continue
 
+            task_state = self.scheduler.task_states[task_id]
+            if task_state.ready_count == 0 and task_state.pending_count > 0:
+                # can't be answered yet, don't starve requests of other tasks
+                continue
+
             logger.debug("Answering delayed request for task %s", task_id)
             return self.pending_requests[task_id].get()
 
-- 
2.43.0


From b718d4dda408922b3b763b6f71d061f43e9a2986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:04 +0000
Subject: [PATCH 12/37] fix: do not add a worker for a failing worker that is
 already gone

---
 daisy/task_worker_pools.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/daisy/task_worker_pools.py b/daisy/task_worker_pools.py
index e37b90a..f42cae9 100644
--- a/daisy/task_worker_pools.py
+++ b/daisy/task_worker_pools.py
@@ -67,5 +67,7 @@ class TaskWorkerPools(ServerObserver):
 
             self.failure_counts[task_id][worker_id] = 0
             worker_pool = self.worker_pools[task_id]
-            worker_pool.stop(worker_id)
-            worker_pool.inc_num_workers(1)
+            if worker_id in worker_pool.workers:
+                # otherwise, the worker is already gone (and replaced)
+                worker_pool.stop(worker_id)
+                worker_pool.inc_num_workers(1)
-- 
2.43.0


From 00420e9219d814f7718ef3d16353acdf864e10ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:04 +0000
Subject: [PATCH 13/37] fix: TCPServer retries if a port can not be opened

---
 daisy/tcp/tcp_server.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/daisy/tcp/tcp_server.py b/daisy/tcp/tcp_server.py
index aee63e4..33562b4 100644
--- a/daisy/tcp/tcp_server.py
+++ b/daisy/tcp/tcp_server.py
@@ -35,10 +35,9 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
                 break
 
             except OSError:
-                if i == self.max_port_tries - 1:
+                if i == max_port_tries - 1:
                     raise NoFreePort(
-                        "Could not find a free port after %d tries "
-                        % self.max_port_tries
+                        "Could not find a free port after %d tries " % max_port_tries
                     )
 
         self.address = self._get_address(host)
-- 
2.43.0


From fc67147be0ada3a0747025fc385fc4f0a76bf2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:04 +0000
Subject: [PATCH 14/37] fix: do not hand out blocks to clients that are gone

The block would be lost immediately, which counts as a failed attempt.
---
 daisy/server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/daisy/server.py b/daisy/server.py
index b09e455..4e72c8a 100644
--- a/daisy/server.py
+++ b/daisy/server.py
@@ -130,6 +130,10 @@ class Server(ServerObservee):
     def _handle_acquire_block(self, message):
         logger.debug("Received block request for task %s", message.task_id)
 
+        if message.stream.closed():
+            logger.debug("Client is gone, dropping its request")
+            return
+
         task_state = self.scheduler.task_states[message.task_id]
 
         logger.debug("Current task state: %s", task_state)
-- 
2.43.0


From 31928f0b2dc7da82aee7991627f3533370d3cee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:04 +0000
Subject: [PATCH 15/37] fix: clients yield no block if the server is gone
 before the request

---
 daisy/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/daisy/client.py b/daisy/client.py
index 3fa6fa0..e150a20 100644
--- a/daisy/client.py
+++ b/daisy/client.py
@@ -11,6 +11,7 @@ from .messages import (
 )
 from contextlib import contextmanager
 from daisy.tcp import TCPClient, StreamClosedError
+from daisy.tcp.exceptions import NotConnected
 import logging
 
 logger = logging.getLogger(__name__)
@@ -69,12 +70,12 @@ class Client:
     @contextmanager
     def acquire_block(self):
         """API for client to get a new block."""
-        self.tcp_client.send_message(AcquireBlock(self.task_id))
         message = None
         try:
+            self.tcp_client.send_message(AcquireBlock(self.task_id))
             while message is None:
                 message = self.tcp_client.get_message(timeout=0.1)
-        except StreamClosedError:
+        except (StreamClosedError, NotConnected):
             logger.debug("TCP stream was closed, server is probably down")
             yield
             return
-- 
2.43.0


From 1ab78a1dc6a182d247245542152ce5d4aaee7ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:33 +0000
Subject: [PATCH 16/37] fix: serial server reports tasks done that end without
 processing a block

Tasks whose last blocks are skipped or orphaned were never reported to
observers as done.
---
 daisy/serial_server.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/daisy/serial_server.py b/daisy/serial_server.py
index f2e8a25..a50d234 100644
--- a/daisy/serial_server.py
+++ b/daisy/serial_server.py
@@ -24,6 +24,15 @@ class SerialServer(ServerObservee):
         process_funcs = {task.task_id: task.process_function for task in tasks}
 
         while True:
+            # tasks can also finish without processing a block, i.e., if their
+            # blocks are skipped or orphaned
+            for task_id in list(process_funcs.keys()):
+                if scheduler.task_states[task_id].is_done():
+                    self.notify_task_done(task_id, scheduler.task_states[task_id])
+                    finished_tasks.add(task_id)
+                    started_tasks.discard(task_id)
+                    del process_funcs[task_id]
+
             ready_tasks = scheduler.get_ready_tasks()
             if finished_tasks == all_tasks:
                 break
@@ -34,9 +43,9 @@ class SerialServer(ServerObservee):
                     if block is not None:
                         break
                 if block is None:
-                    if len(scheduler.get_ready_tasks()) > 0:
+                    if len(ready_tasks) > 0:
                         # all blocks that were ready have been skipped, which
-                        # made blocks of other tasks available
+                        # can make blocks of other tasks available
                         continue
                     break
                 if block.task_id not in started_tasks:
@@ -59,16 +68,5 @@ class SerialServer(ServerObservee):
                     block.task_id, scheduler.task_states[block.task_id]
                 )
 
-                if scheduler.task_states[block.task_id].is_done():
-                    self.notify_task_done(
-                        block.task_id, scheduler.task_states[block.task_id]
-                    )
-                    finished_tasks.add(block.task_id)
-                    started_tasks.remove(block.task_id)
-                    del process_funcs[block.task_id]
-
-            if len(process_funcs) == 0:
-                break
-
         self.notify_server_exit()
         return scheduler.task_states
-- 
2.43.0


From 58662c7e1dea98479839b35c409a6147468cb6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:54 +0000
Subject: [PATCH 17/37] fix: failures with exceptions that can not be pickled
 do not abort the run

An exception that could not be restored in the server ended the whole run
with an unrelated error, one that could not be pickled was not reported.
---
 daisy/messages/message.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/daisy/messages/message.py b/daisy/messages/message.py
index cbc362c..413a127 100644
--- a/daisy/messages/message.py
+++ b/daisy/messages/message.py
@@ -1,5 +1,6 @@
 from daisy.tcp import TCPMessage
 import logging
+import pickle
 
 logger = logging.getLogger(__name__)
 
@@ -19,3 +20,22 @@ class ExceptionMessage(Message):
 
     def __init__(self, exception):
         self.exception = exception
+
+    def __getstate__(self):
+        # the receiver might not be able to restore the exception (e.g., if its
+        # class is not importable there), send it along with a description
+        state = self.__dict__.copy()
+        exception = state.pop("exception")
+        try:
+            pickled_exception = pickle.dumps(exception)
+        except Exception:
+            pickled_exception = None
+        return state, pickled_exception, repr(exception)
+
+    def __setstate__(self, state):
+        state, pickled_exception, description = state
+        self.__dict__.update(state)
+        try:
+            self.exception = pickle.loads(pickled_exception)
+        except Exception:
+            self.exception = RuntimeError(description)
-- 
2.43.0


From 76242bff92b2aeb1a37d123f1c8d0e4d6c1f8606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:54 +0000
Subject: [PATCH 18/37] fix: forward worker exceptions that can not be pickled

They were dropped by the queue, such that the server waited forever.
---
 daisy/worker.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/daisy/worker.py b/daisy/worker.py
index 6e48529..0c6324f 100644
--- a/daisy/worker.py
+++ b/daisy/worker.py
@@ -3,6 +3,7 @@ import daisy.logging as daisy_logging
 import logging
 import multiprocessing
 import os
+import pickle
 import queue
 import dill
 
@@ -102,6 +103,11 @@ class Worker:
         except Exception as e:
             logger.error("%s received exception: %s", self, e)
             if self.error_queue:
+                try:
+                    pickle.loads(pickle.dumps(e))
+                except Exception:
+                    # would get lost in the queue
+                    e = RuntimeError(repr(e))
                 try:
                     self.error_queue.put(e, timeout=1)
                 except queue.Full:
-- 
2.43.0


From a6bbc22132e296a2dec2ede18e0e289cc1e07fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:54 +0000
Subject: [PATCH 19/37] fix: stop workers and notify observers if starting a
 task fails

---
 daisy/server.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/daisy/server.py b/daisy/server.py
index 4e72c8a..924f391 100644
--- a/daisy/server.py
+++ b/daisy/server.py
@@ -54,9 +54,8 @@ class Server(ServerObservee):
             task.task_id: Queue() for task in tasks
         }
 
-        self._recruit_workers()
-
         try:
+            self._recruit_workers()
             self._event_loop()
         finally:
             logger.debug("Stopping worker pools...")
-- 
2.43.0


From 572ffa1832626aa0a0174dab18cf15c892cd5859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:27 +0000
Subject: [PATCH 20/37] fix: process lost blocks if all workers were already
 told to shut down

A worker that requests a block while the last block of a task is being
processed is told to shut down. If the worker processing that block
disappeared after that, the run never ended.
---
 daisy/server.py            | 10 ++++++++++
 daisy/task_worker_pools.py |  5 +++++
 daisy/worker_pool.py       | 14 ++++++++++++++
 3 files changed, 29 insertions(+)

diff --git a/daisy/server.py b/daisy/server.py
index 924f391..577f860 100644
--- a/daisy/server.py
+++ b/daisy/server.py
@@ -48,6 +48,7 @@ class Server(ServerObservee):
         self.block_bookkeeper = BlockBookkeeper()
         self.started_tasks: set[str] = set()
         self.finished_tasks: set[str] = set()
+        self.tasks_with_lost_blocks: set[str] = set()
         self.all_done = False
 
         self.pending_requests: dict[str, Queue] = {
@@ -274,3 +275,12 @@ class Server(ServerObservee):
             logger.error("Block %s was lost, returning it to scheduler", block)
             block.status = BlockStatus.FAILED
             self._release_block(block)
+            self.tasks_with_lost_blocks.add(block.task_id)
+
+        # make sure that there are workers left to process the lost blocks, all
+        # of them might have been told to shut down already
+        for task_id in list(self.tasks_with_lost_blocks):
+            if self.scheduler.task_states[task_id].ready_count == 0:
+                self.tasks_with_lost_blocks.remove(task_id)
+            elif self.worker_pools.ensure_running_worker(task_id):
+                self.tasks_with_lost_blocks.remove(task_id)
diff --git a/daisy/task_worker_pools.py b/daisy/task_worker_pools.py
index f42cae9..13ef36a 100644
--- a/daisy/task_worker_pools.py
+++ b/daisy/task_worker_pools.py
@@ -33,6 +33,11 @@ class TaskWorkerPools(ServerObserver):
                 )
                 worker_pool.set_num_workers(tasks[task_id].num_workers)
 
+    def ensure_running_worker(self, task_id):
+        """Replace a worker if all workers of the given task exited normally.
+        Returns whether a worker was started."""
+        return self.worker_pools[task_id].replace_exited_worker()
+
     def stop(self):
         logger.debug("Stopping all workers")
         for worker_pool in self.worker_pools.values():
diff --git a/daisy/worker_pool.py b/daisy/worker_pool.py
index d400dbb..2f5902b 100644
--- a/daisy/worker_pool.py
+++ b/daisy/worker_pool.py
@@ -135,6 +135,20 @@ class WorkerPool:
 
         return len(dead_worker_ids)
 
+    def replace_exited_worker(self):
+        """If all workers in this pool exited normally, replace one of them
+        with a new worker. Returns whether a worker was started."""
+
+        with self.workers_lock:
+            if len(self.workers) == 0 or any(
+                worker.process is not None for worker in self.workers.values()
+            ):
+                return False
+            del self.workers[next(iter(self.workers))]
+            self._start_workers(1)
+
+        return True
+
     def _start_workers(self, n):
         logger.debug("starting %d new workers", n)
         new_workers = [
-- 
2.43.0


From 351c747744fab83385a5b949801615cefb0cddd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:27 +0000
Subject: [PATCH 21/37] fix: contexts with separators in values survive the
 environment

For example a log directory named after the current time ("12:30") made all
workers fail.
---
 daisy/context.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/daisy/context.py b/daisy/context.py
index b53dec0..3c2f89e 100644
--- a/daisy/context.py
+++ b/daisy/context.py
@@ -1,8 +1,13 @@
 import copy
 import logging
 import os
+import string
+from urllib.parse import quote, unquote
 from .logging import get_log_basedir
 
+# all printable ASCII characters that have no special meaning in to_env()
+SAFE = "".join(set(string.printable) - set("=:%"))
+
 logger = logging.getLogger(__name__)
 
 
@@ -16,7 +21,12 @@ class Context:
         return copy.deepcopy(self)
 
     def to_env(self):
-        return ":".join("%s=%s" % (k, v) for k, v in self.__dict.items())
+        # quote separators: values that are not set through __setitem__ (like the
+        # log directory) can contain them
+        return ":".join(
+            "%s=%s" % (quote(str(k), safe=SAFE), quote(str(v), safe=SAFE))
+            for k, v in self.__dict.items()
+        )
 
     def __setitem__(self, k, v):
         k = str(k)
@@ -51,6 +61,6 @@ class Context:
 
         for token in tokens:
             k, v = token.split("=")
-            context[k] = v
+            context.__dict[unquote(k)] = unquote(v)
 
         return context
-- 
2.43.0


From a2ceb831905ca0c07d9c3b01e7cacba6bb2921a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:27 +0000
Subject: [PATCH 22/37] fix: support pairs of check functions as documented

A tuple of two functions was accepted, but neither of them was ever called.
---
 daisy/scheduler.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/daisy/scheduler.py b/daisy/scheduler.py
index f85003e..7eb7f97 100644
--- a/daisy/scheduler.py
+++ b/daisy/scheduler.py
@@ -97,7 +97,7 @@ class Scheduler:
                     self.task_states[task_id].skipped_count += 1
                     # adding block so release_block() can remove it
                     self.task_queues[task_id].processing_blocks.add(block.block_id)
-                    self.release_block(block)
+                    self.__release_block(block)
                     continue
                 else:
                     self.task_states[task_id].started = True
@@ -128,6 +128,11 @@ class Scheduler:
             as solved made some blocks in B available for
             processing, task B would be returned with its state.
         """
+        if block.status == BlockStatus.SUCCESS and not self.__postcheck(block):
+            block.status = BlockStatus.FAILED
+        return self.__release_block(block)
+
+    def __release_block(self, block):
         task_id = block.task_id
         self.__remove_from_processing_blocks(block)
         if block.status == BlockStatus.SUCCESS:
@@ -191,10 +196,23 @@ class Scheduler:
         try:
             # pre_check can intermittently fail
             # so we wrap it in a try block
-            if self.task_map[block.task_id].check_function is not None:
-                return self.task_map[block.task_id].check_function(block)
+            check_function = self.task_map[block.task_id].check_function
+            if isinstance(check_function, tuple):
+                check_function = check_function[0]
+            if check_function is not None:
+                return check_function(block)
             else:
                 return False
         except Exception:
             logger.exception(f"pre_check() exception for block {block.block_id}")
             return False
+
+    def __postcheck(self, block):
+        check_function = self.task_map[block.task_id].check_function
+        if not isinstance(check_function, tuple) or check_function[1] is None:
+            return True
+        try:
+            return check_function[1](block)
+        except Exception:
+            logger.exception(f"post_check() exception for block {block.block_id}")
+            return False
-- 
2.43.0


From 2b7ab7cdaaf680f7ba0f8ce3e5e3904c76c7c308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:47 +0000
Subject: [PATCH 23/37] fix: tasks without any fitting block have no entry
 points

---
 daisy/dependency_graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index b214766..8e2e021 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -238,6 +238,9 @@ class BlockwiseDependencyGraph:
                 raise RuntimeError("Unreachable!")
 
     def root_gen(self):
+        if self.num_levels == 0:
+            # no block fits into the total ROI
+            return
         blocks = self.level_blocks(level=0)
         for block in blocks:
             yield self.fit_block(block)
-- 
2.43.0


From e0f2051510556333230f931ce029223bc681c3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:10 +0000
Subject: [PATCH 24/37] fix: keep replacing workers of tasks with lost blocks
 until they are done

A task can have no ready blocks when a block got lost (e.g., because it failed
permanently), but get some later, when its last worker is gone.
---
 daisy/server.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/daisy/server.py b/daisy/server.py
index 577f860..67fb82d 100644
--- a/daisy/server.py
+++ b/daisy/server.py
@@ -277,10 +277,13 @@ class Server(ServerObservee):
             self._release_block(block)
             self.tasks_with_lost_blocks.add(block.task_id)
 
-        # make sure that there are workers left to process the lost blocks, all
-        # of them might have been told to shut down already
+        # make sure that there are workers left to process the lost (and other)
+        # blocks of the same task, all of them might have been told to shut down
+        # already or lost their connection
         for task_id in list(self.tasks_with_lost_blocks):
-            if self.scheduler.task_states[task_id].ready_count == 0:
-                self.tasks_with_lost_blocks.remove(task_id)
-            elif self.worker_pools.ensure_running_worker(task_id):
+            task_state = self.scheduler.task_states[task_id]
+            if task_state.is_done():
                 self.tasks_with_lost_blocks.remove(task_id)
+            elif task_state.ready_count > 0:
+                if self.worker_pools.ensure_running_worker(task_id):
+                    self.tasks_with_lost_blocks.remove(task_id)
-- 
2.43.0


From 28d42c19b82d4e52053146cd1be430b6c013d5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:52 +0000
Subject: [PATCH 25/37] fix: serial server tells observers about the exit if
 processing raises

---
 daisy/serial_server.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/daisy/serial_server.py b/daisy/serial_server.py
index a50d234..46b6ef3 100644
--- a/daisy/serial_server.py
+++ b/daisy/serial_server.py
@@ -13,6 +13,13 @@ class SerialServer(ServerObservee):
         super().__init__()
 
     def run_blockwise(self, tasks: list[Task], scheduler=None) -> dict[str, TaskState]:
+        try:
+            return self._run_blockwise(tasks, scheduler)
+        finally:
+            # also if processing a block raised an exception
+            self.notify_server_exit()
+
+    def _run_blockwise(self, tasks: list[Task], scheduler) -> dict[str, TaskState]:
         if scheduler is None:
             scheduler = Scheduler(tasks)
         else:
@@ -68,5 +75,4 @@ class SerialServer(ServerObservee):
                     block.task_id, scheduler.task_states[block.task_id]
                 )
 
-        self.notify_server_exit()
         return scheduler.task_states
-- 
2.43.0


From e4782b40a4ab1b015378531bb72f38b16a734e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:59 +0000
Subject: [PATCH 26/37] fix: messages changed after sending arrive as they were
 sent

---
 daisy/tcp/tcp_stream.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/daisy/tcp/tcp_stream.py b/daisy/tcp/tcp_stream.py
index 767f834..fa360a1 100644
--- a/daisy/tcp/tcp_stream.py
+++ b/daisy/tcp/tcp_stream.py
@@ -44,7 +44,9 @@ class TCPStream(IOLooper):
         if self.stream is None:
             raise StreamClosedError(*self.address)
 
-        self.ioloop.add_callback(self._send_message, message)
+        # pickle here, the caller might change the message (or the block in it)
+        # before it is sent
+        self.ioloop.add_callback(self._send_message, pickle.dumps(message))
 
     def close(self):
         """Close this stream."""
@@ -61,11 +63,10 @@ class TCPStream(IOLooper):
             return True
         return self.stream.closed()
 
-    async def _send_message(self, message):
+    async def _send_message(self, pickled_data):
         if self.stream is None:
             logger.error("No TCPStream available, can't send message.")
 
-        pickled_data = pickle.dumps(message)
         message_size_bytes = struct.pack("I", len(pickled_data))
         message_bytes = message_size_bytes + pickled_data
 
-- 
2.43.0


From 7715c3af82c134ab66bf1006764eeeea01ddbad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:00 +0000
Subject: [PATCH 27/37] fix: close streams in the thread that uses them

Closing an IOStream from another thread races with the IO loop: if the file
descriptor is reused, the handler of a new connection can get removed, such
that its messages never arrive.
---
 daisy/tcp/tcp_stream.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/daisy/tcp/tcp_stream.py b/daisy/tcp/tcp_stream.py
index fa360a1..d90797c 100644
--- a/daisy/tcp/tcp_stream.py
+++ b/daisy/tcp/tcp_stream.py
@@ -50,12 +50,10 @@ class TCPStream(IOLooper):
 
     def close(self):
         """Close this stream."""
-        try:
-            self.stream.close()
-        except Exception:
-            pass
-        finally:
-            self.stream = None
+        stream, self.stream = self.stream, None
+        if stream is not None:
+            # IOStreams are not thread-safe, close it where it is used
+            self.ioloop.add_callback(stream.close)
 
     def closed(self):
         """True if this stream was closed."""
-- 
2.43.0


From 1316c99089186ee29ba1d88cf0e840b791528333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:16 +0000
Subject: [PATCH 28/37] fix: collect upstream tasks once

run_blockwise visited upstream tasks once per path that leads to them, so runs
of a few dozen tasks with many common dependencies never started.
---
 daisy/convenience.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daisy/convenience.py b/daisy/convenience.py
index 4ddfb4e..408f1d2 100644
--- a/daisy/convenience.py
+++ b/daisy/convenience.py
@@ -31,7 +31,7 @@ def run_blockwise(tasks, multiprocessing=True):
         if task.task_id not in task_ids:
             task_ids.add(task.task_id)
             all_tasks.append(task)
-        tasks.extend(task.upstream_tasks)
+            tasks.extend(task.upstream_tasks)
 
     tasks = all_tasks
 
-- 
2.43.0


From 04ad46c00609a55612ee9f7e8c63a440f8fb008b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:09 +0000
Subject: [PATCH 29/37] fix: empty regions touch no blocks

Asking for the blocks that read from an empty region returned blocks around it.
---
 daisy/dependency_graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index 8e2e021..887a6b6 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -519,6 +519,10 @@ class BlockwiseDependencyGraph:
         relative coordinates.
         """
 
+        if sub_roi.empty:
+            # touches no block, neither where they read nor where they write
+            return []
+
         if read_roi:
             # if we want to get blocks whose read_roi overlaps with sub_roi
             # simply grow the sub_roi by the block context. That way we
-- 
2.43.0


From 203ed59fdaafbfaca49e47e4857f15ab89d7d3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:59 +0000
Subject: [PATCH 30/37] fix: observers that leave do not keep others from being
 notified

---
 daisy/server_observer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/daisy/server_observer.py b/daisy/server_observer.py
index d530c53..67d63ae 100644
--- a/daisy/server_observer.py
+++ b/daisy/server_observer.py
@@ -33,25 +33,25 @@ class ServerObservee:
         self.observers.remove(observer)
 
     def notify_task_start(self, task_id, task_state):
-        for observer in self.observers:
+        for observer in list(self.observers):
             observer.on_task_start(task_id, task_state)
 
     def notify_acquire_block(self, task_id, task_state):
-        for observer in self.observers:
+        for observer in list(self.observers):
             observer.on_acquire_block(task_id, task_state)
 
     def notify_release_block(self, task_id, task_state):
-        for observer in self.observers:
+        for observer in list(self.observers):
             observer.on_release_block(task_id, task_state)
 
     def notify_task_done(self, task_id, task_state):
-        for observer in self.observers:
+        for observer in list(self.observers):
             observer.on_task_done(task_id, task_state)
 
     def notify_block_failure(self, block, exception, context):
-        for observer in self.observers:
+        for observer in list(self.observers):
             observer.on_block_failure(block, exception, context)
 
     def notify_server_exit(self):
-        for observer in self.observers:
+        for observer in list(self.observers):
             observer.on_server_exit()
-- 
2.43.0


From 0e3f1be2b7def22b5ea754fffc0b503563026125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:37 +0000
Subject: [PATCH 31/37] fix: connections report to be closed after the client
 disconnected

After a graceful disconnect the server kept the stream and considered it to be
open. A block sent over it (in response to a delayed request of a client that
left), or held by the client, was never declared lost and the run never ended.
---
 daisy/tcp/tcp_server.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/daisy/tcp/tcp_server.py b/daisy/tcp/tcp_server.py
index 33562b4..e89ed77 100644
--- a/daisy/tcp/tcp_server.py
+++ b/daisy/tcp/tcp_server.py
@@ -3,6 +3,7 @@ from .internal_messages import AckClientDisconnect, NotifyClientDisconnect
 from .io_looper import IOLooper
 from .tcp_stream import TCPStream
 import logging
+import pickle
 import queue
 import socket
 import tornado.tcpserver
@@ -101,10 +102,12 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
 
                 if isinstance(message, NotifyClientDisconnect):
                     # client notifies that it disconnects, send a response
-                    # indicating we are no longer using this stream and break
+                    # indicating we are no longer using this stream, close it
+                    # (nothing sent from now on would be received) and break
                     # out of event loop
-                    stream.send_message(AckClientDisconnect())
+                    await stream._send_message(pickle.dumps(AckClientDisconnect()))
                     self.client_streams.remove(stream)
+                    stream.close()
                     return
 
                 else:
-- 
2.43.0


From ebca71c09eebd2dd223eff8741ef1ebbf7152a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:07 +0000
Subject: [PATCH 32/37] fix: clients of runs without log directory do not set
 it to "None"

In a context that is read from the environment all values are strings. A client
of a worker without log directory took this for a directory called "None", such
that workers started from there wrote their logs to it.
---
 daisy/client.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/daisy/client.py b/daisy/client.py
index e150a20..f5887b5 100644
--- a/daisy/client.py
+++ b/daisy/client.py
@@ -1,6 +1,6 @@
 from .block import BlockStatus
 from .context import Context
-from .logging import set_log_basedir
+from .logging import get_log_basedir, set_log_basedir
 from .messages import (
     AcquireBlock,
     BlockFailed,
@@ -58,7 +58,10 @@ class Client:
             self.context = Context.from_env()
         logger.debug("Client context: %s", self.context)
 
-        set_log_basedir(self.context["logdir"])
+        logdir = self.context["logdir"]
+        if str(logdir) != str(get_log_basedir()):
+            # no log directory is "None" in a context from the environment
+            set_log_basedir(None if logdir == "None" else logdir)
         self.host = self.context["hostname"]
         self.port = int(self.context["port"])
         self.worker_id = int(self.context["worker_id"])
-- 
2.43.0


From 5249eededd8213806f118e02b0fa9ca4b31d274f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:30 +0000
Subject: [PATCH 33/37] fix: forked processes do not keep connections open

Processes forked by user code in a worker (e.g., through multiprocessing) inherit
the socket of its connection. If the worker died, the connection stayed open as
long as one of them was alive, its block was never declared lost and the run
never ended.
---
 daisy/tcp/tcp_stream.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/daisy/tcp/tcp_stream.py b/daisy/tcp/tcp_stream.py
index d90797c..8b91f53 100644
--- a/daisy/tcp/tcp_stream.py
+++ b/daisy/tcp/tcp_stream.py
@@ -1,12 +1,32 @@
 from .exceptions import StreamClosedError
 from .io_looper import IOLooper
 import logging
+import os
 import pickle
 import struct
+import weakref
 import tornado.iostream
 
 logger = logging.getLogger(__name__)
 
+# all streams of this process
+_streams: weakref.WeakSet = weakref.WeakSet()
+
+
+def _close_inherited_streams():
+    """Forked processes (e.g., of user code in a worker) inherit the sockets of
+    their parent. Unless closed there, connections would stay open after the
+    parent died."""
+    for stream in list(_streams):
+        inherited, stream.stream = stream.stream, None
+        if inherited is not None and inherited.socket is not None:
+            inherited.socket.close()
+    _streams.clear()
+
+
+if hasattr(os, "register_at_fork"):
+    os.register_at_fork(after_in_child=_close_inherited_streams)
+
 
 class TCPStream(IOLooper):
     """Wrapper around :class:`tornado.iostream.IOStream` to send
@@ -25,6 +45,7 @@ class TCPStream(IOLooper):
         super().__init__()
         self.stream = stream
         self.address = address
+        _streams.add(self)
 
     def send_message(self, message):
         """Send a message through this stream asynchronously.
-- 
2.43.0


From c030397fb17ee31396fef01ebcdcc60645143d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:50 +0000
Subject: [PATCH 34/37] fix: servers accept connections in their own IO loop

TCPServer.listen() registers the server with the IO loop of the calling
thread. If IOLooper already had a loop (e.g., of an earlier run_blockwise(),
which creates it in a thread of its own), no running loop accepted connections
and the run never ended.
---
 daisy/tcp/tcp_server.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/daisy/tcp/tcp_server.py b/daisy/tcp/tcp_server.py
index e89ed77..228f47c 100644
--- a/daisy/tcp/tcp_server.py
+++ b/daisy/tcp/tcp_server.py
@@ -6,6 +6,7 @@ import logging
 import pickle
 import queue
 import socket
+import tornado.netutil
 import tornado.tcpserver
 
 logger = logging.getLogger(__name__)
@@ -32,7 +33,7 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
         # find empty port, start listening
         for i in range(max_port_tries):
             try:
-                self.listen(0)  # 0 == random port
+                sockets = tornado.netutil.bind_sockets(0)  # 0 == random port
                 break
 
             except OSError:
@@ -41,7 +42,11 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
                         "Could not find a free port after %d tries " % max_port_tries
                     )
 
-        self.address = self._get_address(host)
+        # accept connections in the IO loop of this server, which is not
+        # necessarily the one of the current thread
+        self.ioloop.add_callback(self.add_sockets, sockets)
+
+        self.address = self._get_address(sockets[0], host)
 
     def get_message(self, timeout=None):
         """Get a message that was sent to this server.
@@ -129,11 +134,15 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
         except queue.Empty:
             return
 
-    def _get_address(self, host=None):
+    def _get_address(self, sock, host=None):
         """Get the host and port of the tcp server.
 
         Args:
 
+            sock (socket):
+
+                A socket this server listens on.
+
             host (str, optional):
 
                 If given, use this as the server host address. If not given,
@@ -143,7 +152,6 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
                 is not connectable (e.g., blocked by a macOS firewall).
         """
 
-        sock = self._sockets[list(self._sockets.keys())[0]]
         port = sock.getsockname()[1]
 
         if host is not None:
-- 
2.43.0


From c0aff6e7800a951b6fdc05470550a3269166d4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:19 +0000
Subject: [PATCH 35/37] fix: servers stop listening when they disconnect

Clients that connect after a run ended (e.g., workers on other machines that
start late) were accepted by nobody who would answer them, and waited forever.
---
 daisy/tcp/tcp_server.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/daisy/tcp/tcp_server.py b/daisy/tcp/tcp_server.py
index 228f47c..263d27d 100644
--- a/daisy/tcp/tcp_server.py
+++ b/daisy/tcp/tcp_server.py
@@ -73,8 +73,17 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
             return None
 
     def disconnect(self):
-        """Close all open streams to clients."""
+        """Stop listening for clients and close all open streams to them."""
 
+        self._close_streams()
+        self.ioloop.add_callback(self._stop_listening)
+
+    def _stop_listening(self):
+        self.stop()
+        # streams can have been opened in the meantime
+        self.ioloop.add_callback(self._close_streams)
+
+    def _close_streams(self):
         streams = list(self.client_streams)  # avoid set change error
         for stream in streams:
             logger.debug("Closing stream %s", stream)
-- 
2.43.0


From 8f07cad1cfbeb8acf98676b72c6384daaf8c5185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:20 +0000
Subject: [PATCH 36/37] fix: forked processes do not keep listening

Workers inherited the socket their server listens on. A worker that connected
after its server was killed was connected to a socket of its own (or of
another worker) and waited forever.
---
 daisy/tcp/tcp_server.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/daisy/tcp/tcp_server.py b/daisy/tcp/tcp_server.py
index 263d27d..3d9b96e 100644
--- a/daisy/tcp/tcp_server.py
+++ b/daisy/tcp/tcp_server.py
@@ -3,14 +3,33 @@ from .internal_messages import AckClientDisconnect, NotifyClientDisconnect
 from .io_looper import IOLooper
 from .tcp_stream import TCPStream
 import logging
+import os
 import pickle
 import queue
 import socket
+import weakref
 import tornado.netutil
 import tornado.tcpserver
 
 logger = logging.getLogger(__name__)
 
+# all servers of this process
+_servers: weakref.WeakSet = weakref.WeakSet()
+
+
+def _close_inherited_sockets():
+    """Forked processes (e.g., workers) inherit the sockets their parent listens
+    on. Unless closed there, clients could still connect (and would wait forever)
+    after the parent died."""
+    for server in list(_servers):
+        for sock in server.listening_sockets:
+            sock.close()
+    _servers.clear()
+
+
+if hasattr(os, "register_at_fork"):
+    os.register_at_fork(after_in_child=_close_inherited_sockets)
+
 
 class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
     """A TCP server to handle client-server communication through
@@ -45,6 +64,8 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
         # accept connections in the IO loop of this server, which is not
         # necessarily the one of the current thread
         self.ioloop.add_callback(self.add_sockets, sockets)
+        self.listening_sockets = sockets
+        _servers.add(self)
 
         self.address = self._get_address(sockets[0], host)
 
-- 
2.43.0


From 7a75d72ecaa860942b30a54ece996e2db9ab521b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:59 +0000
Subject: [PATCH 37/37] fix: a keyboard interrupt stops the run, whichever
 thread gets the signal

---
 daisy/convenience.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/daisy/convenience.py b/daisy/convenience.py
index 408f1d2..97629fc 100644
--- a/daisy/convenience.py
+++ b/daisy/convenience.py
@@ -47,6 +47,10 @@ def run_blockwise(tasks, multiprocessing=True):
         with ThreadPool(processes=1) as pool:
             result = pool.apply_async(_run_blockwise, args=(tasks, stop_event))
             try:
+                # another thread might get the signal for a KeyboardInterrupt,
+                # which does not wake up this one
+                while not result.ready():
+                    result.wait(timeout=1)
                 return result.get()
             except KeyboardInterrupt:
                 stop_event.set()
-- 
2.43.0

