From 0161dcb59adffa13330c064448dc638fdd7a8453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:11 +0000
Subject: [PATCH 01/90] fix: circuit breaker accepted error ratios outside of
 0..1

---
 aiomisc/circuit_breaker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/circuit_breaker.py b/aiomisc/circuit_breaker.py
index e3acd63..50c6370 100644
--- a/aiomisc/circuit_breaker.py
+++ b/aiomisc/circuit_breaker.py
@@ -139,7 +139,7 @@ class CircuitBreaker(EventLoopMixin):
         if response_time <= 0:
             raise ValueError("Response time must be greater then zero")
 
-        if 0. > error_ratio >= 1.:
+        if not 0. <= error_ratio <= 1.:
             raise ValueError(
                 "Error ratio must be between 0 and 1 not %r" % error_ratio,
             )
-- 
2.43.0


From 65e2dab9201dadd51a5c9e8e2ac0fad231ec1850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:11 +0000
Subject: [PATCH 02/90] fix: cutout without exceptions never counted a failure

---
 aiomisc/circuit_breaker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/circuit_breaker.py b/aiomisc/circuit_breaker.py
index 50c6370..dafcca8 100644
--- a/aiomisc/circuit_breaker.py
+++ b/aiomisc/circuit_breaker.py
@@ -378,7 +378,7 @@ def cutout(
     circuit_breaker = CircuitBreaker(
         error_ratio=ratio,
         response_time=response_time,
-        exceptions=exceptions,
+        exceptions=exceptions or (Exception,),
         **kwargs,
     )
 
-- 
2.43.0


From f97f9182190c99b523b4b39149d88cbe3f5b1465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:32 +0000
Subject: [PATCH 03/90] fix: PeriodicCallback restarted right after stop lost
 its new task

---
 aiomisc/periodic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aiomisc/periodic.py b/aiomisc/periodic.py
index 78ad86d..1f498c2 100644
--- a/aiomisc/periodic.py
+++ b/aiomisc/periodic.py
@@ -58,8 +58,9 @@ class PeriodicCallback(EventLoopMixin):
             suppress_exceptions=suppress_exceptions,
         )
 
-        def clean_task(_: Any) -> None:
-            self._task = None
+        def clean_task(task: Any) -> None:
+            if self._task is task:
+                self._task = None
 
         self._task.add_done_callback(clean_task)
 
-- 
2.43.0


From 14f17244404cae3ea1f36034454f0f6d90362575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:22 +0000
Subject: [PATCH 04/90] fix: pool handed out an instance whose check raised an
 exception

---
 aiomisc/pool.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aiomisc/pool.py b/aiomisc/pool.py
index c09942c..05b7c80 100644
--- a/aiomisc/pool.py
+++ b/aiomisc/pool.py
@@ -152,11 +152,11 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
             result = await self._check_instance(instance)
         except Exception:
             log.exception("Check instance %r failed", instance)
+            result = False
+
+        if not result:
             self.__recycle_instance(instance)
-        else:
-            if not result:
-                self.__recycle_instance(instance)
-                return await self.__acquire()
+            return await self.__acquire()
 
         self._used.add(instance)
         return instance
-- 
2.43.0


From 4d87770943c6fa15f4b9f397d1c33af2a0646449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:43 +0000
Subject: [PATCH 05/90] fix: pool lost capacity and waiters after a failed
 creation, a cancelled check or a recycled instance

---
 aiomisc/pool.py | 43 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/aiomisc/pool.py b/aiomisc/pool.py
index 05b7c80..15f0a79 100644
--- a/aiomisc/pool.py
+++ b/aiomisc/pool.py
@@ -56,6 +56,8 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
         "_tasks",
         "_len",
         "_used",
+        "_vacancy",
+        "_waiters",
     ) + EventLoopMixin.__slots__
 
     _tasks: Set[Any]
@@ -79,6 +81,9 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
         self._tasks = set()
         self._used = set()
 
+        self._vacancy = object()
+        self._waiters = 0
+
         self._create_lock = asyncio.Lock()
         self._recycle_times: DefaultDict[float, Any] = defaultdict(
             self.loop.time,
@@ -119,9 +124,17 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
     def __len__(self) -> int:
         return self._len
 
+    def __vacate(self) -> None:
+        self._semaphore.release()
+
+        if self._waiters:
+            # There will be no instance for somebody who is already waiting,
+            # so it must try to create a new one.
+            self._instances.put_nowait(self._vacancy)
+
     def __recycle_instance(self, instance: Any) -> None:
         self._len -= 1
-        self._semaphore.release()
+        self.__vacate()
         if instance in self._recycle_times:
             self._recycle_times.pop(instance)
 
@@ -133,7 +146,12 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
     async def __create_new_instance(self) -> None:
         await self._semaphore.acquire()
 
-        instance: Any = await self._create_instance()
+        try:
+            instance: Any = await self._create_instance()
+        except BaseException:
+            self.__vacate()
+            raise
+
         self._len += 1
 
         if self._recycle:
@@ -143,16 +161,26 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
         await self._instances.put(instance)
 
     async def __acquire(self) -> T:
-        if not self._semaphore.locked():
-            await self.__create_new_instance()
+        instance: Any = self._vacancy
+
+        while instance is self._vacancy:
+            if not self._semaphore.locked():
+                await self.__create_new_instance()
 
-        instance = await self._instances.get()
+            self._waiters += 1
+            try:
+                instance = await self._instances.get()
+            finally:
+                self._waiters -= 1
 
         try:
             result = await self._check_instance(instance)
         except Exception:
             log.exception("Check instance %r failed", instance)
             result = False
+        except asyncio.CancelledError:
+            self.__recycle_instance(instance)
+            raise
 
         if not result:
             self.__recycle_instance(instance)
@@ -179,10 +207,13 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
 
         while self._instances.qsize():
             try:
-                instances.append(self._instances.get_nowait())
+                instance = self._instances.get_nowait()
             except asyncio.QueueEmpty:
                 break
 
+            if instance is not self._vacancy:
+                instances.append(instance)
+
         async def log_exception(coro: Awaitable[Any]) -> None:
             try:
                 await coro
-- 
2.43.0


From 7c3bbba9c79d7bc9ba61ca3d16c146abc94c8417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:44 +0000
Subject: [PATCH 06/90] fix: closing a pool missed recycled instances and
 instances returned meanwhile were reused or destroyed twice

---
 aiomisc/pool.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/aiomisc/pool.py b/aiomisc/pool.py
index 15f0a79..76de2cc 100644
--- a/aiomisc/pool.py
+++ b/aiomisc/pool.py
@@ -190,6 +190,10 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
         return instance
 
     async def __release(self, instance: Any) -> None:
+        if instance not in self._used:
+            # The pool has been closed, and the instance with it
+            return
+
         self._used.discard(instance)
 
         if self._recycle and self._recycle_times[instance] < self.loop.time():
@@ -220,17 +224,20 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
             except Exception:
                 log.exception("Exception when task execution")
 
-        await asyncio.wait_for(
-            asyncio.gather(
-                *[
-                    self.__create_task(
-                        log_exception(self._destroy_instance(instance)),
-                    )
-                    for instance in instances
-                ],
-                return_exceptions=True,
-            ),
-            timeout=timeout,
-        )
-
-        await cancel_tasks(self._tasks)
+        try:
+            await asyncio.wait_for(
+                asyncio.gather(
+                    *[
+                        self.__create_task(
+                            log_exception(self._destroy_instance(instance)),
+                        )
+                        for instance in instances
+                    ],
+                    # Recycled instances must be destroyed too
+                    self._recycle_bin.join(),
+                    return_exceptions=True,
+                ),
+                timeout=timeout,
+            )
+        finally:
+            await cancel_tasks(self._tasks)
-- 
2.43.0


From 238a016fda9f21e97eaa3e6cfdffe14b29f2fbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:34 +0000
Subject: [PATCH 07/90] fix: exception with a false truth value was lost in
 threads

---
 aiomisc/thread_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/thread_pool.py b/aiomisc/thread_pool.py
index 26919f0..099bbc4 100644
--- a/aiomisc/thread_pool.py
+++ b/aiomisc/thread_pool.py
@@ -73,7 +73,7 @@ def _set_workitem_result(
     if future.done():
         return
 
-    if exception:
+    if exception is not None:
         future.set_exception(exception)
     else:
         future.set_result(result)
-- 
2.43.0


From c3fc7e1c865cd72e406ffa80f14209f6c205773c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:34 +0000
Subject: [PATCH 08/90] fix: closing the loop with unfinished thread jobs
 raised RuntimeError

---
 aiomisc/thread_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/thread_pool.py b/aiomisc/thread_pool.py
index 099bbc4..5821a66 100644
--- a/aiomisc/thread_pool.py
+++ b/aiomisc/thread_pool.py
@@ -273,7 +273,7 @@ class ThreadPoolExecutor(ThreadPoolExecutorBase):
 
             while futures:
                 future = futures.pop()
-                if future.done():
+                if future.done() or future.get_loop().is_closed():
                     continue
                 future.set_exception(ThreadPoolException("Pool closed"))
 
-- 
2.43.0


From 40f4dfe9d2cf511174de0d8056aec2d768204013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:53 +0000
Subject: [PATCH 09/90] fix: thread pool did not grow while cancelled jobs
 occupied its threads

---
 aiomisc/thread_pool.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/aiomisc/thread_pool.py b/aiomisc/thread_pool.py
index 5821a66..05d5f38 100644
--- a/aiomisc/thread_pool.py
+++ b/aiomisc/thread_pool.py
@@ -64,6 +64,8 @@ class WorkItemBase:
     context: contextvars.Context = field(
         default_factory=contextvars.copy_context,
     )
+    # futures of the jobs which are queued or occupy a thread
+    jobs: Set[asyncio.Future] = field(default_factory=set)
 
 
 def _set_workitem_result(
@@ -83,6 +85,7 @@ class WorkItem(WorkItemBase):
 
     def __call__(self, no_return: bool = False) -> None:
         if self.future.done():
+            self.jobs.discard(self.future)
             return
 
         if self.loop.is_closed():
@@ -103,6 +106,7 @@ class WorkItem(WorkItemBase):
             delta += time.monotonic()
             self.statistic.sum_time += delta
             self.statistic.done += 1
+            self.jobs.discard(self.future)
 
         if no_return:
             return
@@ -168,7 +172,7 @@ def thread_pool_thread_loop(
 
 class ThreadPoolExecutor(ThreadPoolExecutorBase):
     __slots__ = (
-        "__futures", "__pool", "__tasks",
+        "__futures", "__jobs", "__pool", "__tasks",
         "__write_lock", "__thread_events",
     )
 
@@ -180,6 +184,7 @@ class ThreadPoolExecutor(ThreadPoolExecutorBase):
         statistic_name: Optional[str] = None,
     ) -> None:
         self.__futures: Set[asyncio.Future[Any]] = set()
+        self.__jobs: Set[asyncio.Future[Any]] = set()
         self.__thread_events: Set[threading.Event] = set()
         self.__tasks = TaskChannel()
         self.__write_lock = threading.RLock()
@@ -234,19 +239,21 @@ class ThreadPoolExecutor(ThreadPoolExecutorBase):
 
             if (
                 len(self.__pool) < self.__max_workers and
-                len(self.__futures) >= len(self.__pool)
+                len(self.__jobs) >= len(self.__pool)
             ):
                 self._adjust_thread_count()
 
             loop = asyncio.get_event_loop()
             future: asyncio.Future = loop.create_future()
             self.__futures.add(future)
+            self.__jobs.add(future)
             future.add_done_callback(self.__futures.discard)
 
             self.__tasks.put_nowait(
                 WorkItem(
                     func=fn, args=args, kwargs=kwargs, loop=loop,
                     future=future, statistic=self._statistic,
+                    jobs=self.__jobs,
                 ),
             )
 
-- 
2.43.0


From f249845518770136d3d5c577f85c7eb109d8bd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:35 +0000
Subject: [PATCH 10/90] fix: last items of a threaded iterable might be lost
 when closing

---
 aiomisc/iterator_wrapper.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aiomisc/iterator_wrapper.py b/aiomisc/iterator_wrapper.py
index e39e9ae..0c7edcb 100644
--- a/aiomisc/iterator_wrapper.py
+++ b/aiomisc/iterator_wrapper.py
@@ -122,11 +122,14 @@ class FromThreadChannel:
 
     def __await__(self) -> Any:
         while True:
+            # must be checked before the queue, otherwise items which were
+            # put right before closing might be lost
+            closed = self.is_closed
             try:
                 res = self.queue.get()
                 return res
             except QueueEmpty:
-                if self.is_closed:
+                if closed:
                     raise ChannelClosed
 
                 sleep_time = self._compute_sleep_time()
-- 
2.43.0


From 6f13cb7aa4dd30a36bdf6d43ee6783bee1e51e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:49 +0000
Subject: [PATCH 11/90] fix: closing a bounded threaded iterable left its
 thread blocked forever

---
 aiomisc/iterator_wrapper.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/aiomisc/iterator_wrapper.py b/aiomisc/iterator_wrapper.py
index 0c7edcb..3dd22d0 100644
--- a/aiomisc/iterator_wrapper.py
+++ b/aiomisc/iterator_wrapper.py
@@ -1,10 +1,10 @@
 import asyncio
 import inspect
+import threading
 from abc import abstractmethod
 from collections import deque
 from concurrent.futures import Executor
 from queue import Empty as QueueEmpty
-from queue import Queue
 from time import time
 from types import TracebackType
 from typing import (
@@ -36,6 +36,9 @@ class QueueWrapperBase:
     def get(self) -> Any:
         raise NotImplementedError
 
+    def close(self) -> None:
+        """ Wakes up the blocked producer, which gets ChannelClosed """
+
 
 class DequeWrapper(QueueWrapperBase):
     __slots__ = "queue",
@@ -53,16 +56,33 @@ class DequeWrapper(QueueWrapperBase):
 
 
 class QueueWrapper(QueueWrapperBase):
-    __slots__ = "queue",
+    __slots__ = "queue", "max_size", "closed", "condition"
 
     def __init__(self, max_size: int) -> None:
-        self.queue: Queue = Queue(maxsize=max_size)
+        self.queue: Deque[Any] = deque()
+        self.max_size = max_size
+        self.closed = False
+        self.condition = threading.Condition()
 
     def put(self, item: Any) -> None:
-        return self.queue.put(item)
+        with self.condition:
+            while not self.closed and len(self.queue) >= self.max_size:
+                self.condition.wait()
+            if self.closed:
+                raise ChannelClosed
+            self.queue.append(item)
 
     def get(self) -> Any:
-        return self.queue.get_nowait()
+        with self.condition:
+            if not self.queue:
+                raise QueueEmpty
+            self.condition.notify()
+            return self.queue.popleft()
+
+    def close(self) -> None:
+        with self.condition:
+            self.closed = True
+            self.condition.notify_all()
 
 
 def make_queue(max_size: int = 0) -> QueueWrapperBase:
@@ -84,6 +104,7 @@ class FromThreadChannel:
 
     def close(self) -> None:
         self.__closed = True
+        self.queue.close()
 
     @property
     def is_closed(self) -> bool:
-- 
2.43.0


From 8a6402aba8792fcf63c723b1395ac9ae4fbd7d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:49 +0000
Subject: [PATCH 12/90] fix: leaving a threaded iterable hung when not started
 and did not wait after break

---
 aiomisc/iterator_wrapper.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/aiomisc/iterator_wrapper.py b/aiomisc/iterator_wrapper.py
index 3dd22d0..c4e5a00 100644
--- a/aiomisc/iterator_wrapper.py
+++ b/aiomisc/iterator_wrapper.py
@@ -240,9 +240,10 @@ class IteratorWrapper(AsyncIterator, EventLoopMixin):
         return asyncio.ensure_future(self.wait_closed())
 
     async def wait_closed(self) -> None:
+        if self.__gen_task is None:
+            return
         await self.__close_event.wait()
-        if self.__gen_task:
-            await asyncio.gather(self.__gen_task, return_exceptions=True)
+        await asyncio.gather(self.__gen_task, return_exceptions=True)
 
     def _run(self) -> Any:
         return self.loop.run_in_executor(
@@ -281,9 +282,6 @@ class IteratorWrapper(AsyncIterator, EventLoopMixin):
         self, exc_type: Any, exc_val: Any,
         exc_tb: Any,
     ) -> None:
-        if self.closed:
-            return
-
         await self.close()
 
 
-- 
2.43.0


From 728c9bcb579793b6a3907925df82130fc9461afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:01 +0000
Subject: [PATCH 13/90] fix: threaded iterable ended silently when its
 generator raised CancelledError or the like

---
 aiomisc/iterator_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/iterator_wrapper.py b/aiomisc/iterator_wrapper.py
index c4e5a00..3bdff2a 100644
--- a/aiomisc/iterator_wrapper.py
+++ b/aiomisc/iterator_wrapper.py
@@ -227,7 +227,7 @@ class IteratorWrapper(AsyncIterator, EventLoopMixin):
                     self._statistic.enqueued += 1
             except StopIteration:
                 return
-            except Exception as e:
+            except BaseException as e:
                 if self.closed:
                     return
                 self.__channel.put((e, True))
-- 
2.43.0


From ef1fd3c357cffd05dda9ba5a7314795edd6a8ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:45 +0000
Subject: [PATCH 14/90] fix: thread waiting for a coroutine hung when the
 coroutine was cancelled

---
 aiomisc/thread_pool.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aiomisc/thread_pool.py b/aiomisc/thread_pool.py
index 05d5f38..bd51379 100644
--- a/aiomisc/thread_pool.py
+++ b/aiomisc/thread_pool.py
@@ -472,10 +472,12 @@ class CoroutineWaiter:
         self.__exception: Optional[BaseException] = None
 
     def _on_result(self, task: asyncio.Future) -> None:
-        self.__exception = task.exception()
-        if self.__exception is None:
+        try:
             self.__result = task.result()
-        self.__event.set()
+        except BaseException as e:
+            self.__exception = e
+        finally:
+            self.__event.set()
 
     def _awaiter(self) -> None:
         task: asyncio.Future = self.__loop.create_task(self.__coro)
-- 
2.43.0


From 2e2e345c5dda2ea84aa4869b4551e38e7ee11b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:42 +0000
Subject: [PATCH 15/90] fix: services kept running when the entrypoint failed
 to start

---
 aiomisc/entrypoint.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/aiomisc/entrypoint.py b/aiomisc/entrypoint.py
index d8b5cda..9a68451 100644
--- a/aiomisc/entrypoint.py
+++ b/aiomisc/entrypoint.py
@@ -280,7 +280,15 @@ class Entrypoint:
             self._loop = asyncio.get_running_loop()
 
         self.ctx = Context(loop=self.loop)
-        await self._start()
+        try:
+            await self._start()
+        except (Exception, asyncio.CancelledError) as e:
+            # __aexit__ will not be called
+            try:
+                await self._stop(e)
+            except Exception:
+                log.exception("Failed to stop what has been started")
+            raise
         return self
 
     async def __aexit__(
@@ -301,7 +309,7 @@ class Entrypoint:
         ) -> Coroutine[Any, Any, None]:
             return loop.shutdown_default_executor()
 
-    async def _stop(self, exc: Exception) -> None:
+    async def _stop(self, exc: BaseException) -> None:
         loop = self.loop
 
         for handler in self._signal_handlers:
@@ -330,6 +338,8 @@ class Entrypoint:
         )
 
         self._services.add(svc)
+        self._tasks.add(start_task)
+        self._tasks.add(ev_task)
 
         await asyncio.wait(
             (start_task, ev_task),
@@ -342,11 +352,6 @@ class Entrypoint:
         if start_task.done():
             # raise an Exception when failed
             await start_task
-            return
-        else:
-            self._tasks.add(start_task)
-
-        return None
 
     async def start_services(self, *svc: Service) -> None:
         await self.pre_start.call(entrypoint=self, services=svc)
-- 
2.43.0


From fb7954ad97d1c265d445c93301ebb05a1a72d919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:35 +0000
Subject: [PATCH 16/90] fix: one failed service stop interrupted the stops of
 the others

---
 aiomisc/entrypoint.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/aiomisc/entrypoint.py b/aiomisc/entrypoint.py
index 9a68451..5f31969 100644
--- a/aiomisc/entrypoint.py
+++ b/aiomisc/entrypoint.py
@@ -270,9 +270,11 @@ class Entrypoint:
                 buffered=False,
             )
 
-        loop.run_until_complete(self.__aexit__(exc_type, exc_val, exc_tb))
-        if self._loop_owner and self._loop is not None:
-            loop.close()
+        try:
+            loop.run_until_complete(self.__aexit__(exc_type, exc_val, exc_tb))
+        finally:
+            if self._loop_owner and self._loop is not None:
+                loop.close()
 
     async def __aenter__(self) -> "Entrypoint":
         if self._loop is None:
@@ -382,7 +384,11 @@ class Entrypoint:
                     log.warning("Failed to stop service %r:\n%r", svc, e)
                     log.debug("Service stop failed traceback", exc_info=True)
 
-            await asyncio.gather(*tasks)
+            # one failed stop must not interrupt the others
+            results = await asyncio.gather(*tasks, return_exceptions=True)
+            for result in results:
+                if isinstance(result, BaseException):
+                    raise result
         finally:
             await cancel_tasks(tasks)
 
@@ -401,12 +407,19 @@ class Entrypoint:
         )
 
     async def graceful_shutdown(self, exception: Exception) -> None:
-        if self._closing:
-            self._closing.set()
+        if self._closing is None:
+            self._closing = asyncio.Event()
+        self._closing.set()
 
         await cancel_tasks(set(self._tasks))
-        await self.stop_services(*self._services, exc=exception)
+        try:
+            await self.stop_services(*self._services, exc=exception)
+        except Exception:
+            await self._cleanup_loop()
+            raise
+        await self._cleanup_loop()
 
+    async def _cleanup_loop(self) -> None:
         if self._loop_owner:
             await self._cancel_background_tasks()
 
-- 
2.43.0


From c70b1d197cc5a2658d6bf4e77817cb9101ac3e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:56 +0000
Subject: [PATCH 17/90] fix: a shutdown by a signal was taken for timed out or
 run twice

Leaving the entrypoint cancelled the shutdown which the signal had begun,
and the process exited with status 70 at once; services could be stopped
twice.
---
 aiomisc/entrypoint.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/aiomisc/entrypoint.py b/aiomisc/entrypoint.py
index 5f31969..0fd72f3 100644
--- a/aiomisc/entrypoint.py
+++ b/aiomisc/entrypoint.py
@@ -178,6 +178,10 @@ class Entrypoint:
         self._tasks: MutableSet[asyncio.Task] = WeakSet()
         self._thread_pool: Optional[ExecutorType] = None
         self._closing: Optional[asyncio.Event] = None
+        # the shutdown which was caused by a signal, and the task
+        # which waits for it when leaving
+        self._interrupt: Optional[asyncio.Task] = None
+        self._leaving: Optional[asyncio.Task] = None
 
         if catch_signals is None and is_main_thread():
             # Apply default catch signals only if the entrypoint is creating
@@ -296,7 +300,13 @@ class Entrypoint:
     async def __aexit__(
         self, exc_type: Any, exc_val: Any, exc_tb: Any,
     ) -> None:
-        await self._stop(exc_val)
+        if self._interrupt is None:
+            await self._stop(exc_val)
+            return
+
+        # the signal has already caused the shutdown
+        self._leaving = asyncio_current_task()
+        await asyncio.wait([self._interrupt])
 
     if sys.version_info < (3, 9):
         async def __shutdown_thread_pool(
@@ -401,7 +411,7 @@ class Entrypoint:
         current_task = asyncio_current_task(self.loop)
         await cancel_tasks(
             filter(
-                lambda x: x is not current_task,
+                lambda x: x not in (current_task, self._leaving),
                 asyncio_all_tasks(self._loop),
             ),
         )
@@ -430,10 +440,14 @@ class Entrypoint:
         self.loop.call_soon_threadsafe(self._on_interrupt, loop)
 
     def _on_interrupt(self, loop: asyncio.AbstractEventLoop) -> None:
+        if self._interrupt is not None:
+            return
+
         log.warning("Interrupt signal received, shutting down...")
         task = loop.create_task(
             self._stop(RuntimeError("Interrupt signal received")),
         )
+        self._interrupt = task
         handle = loop.call_later(self.shutdown_timeout, task.cancel)
 
         def on_shutdown_finish(task: asyncio.Future) -> None:
@@ -445,7 +459,9 @@ class Entrypoint:
                     self.shutdown_timeout,
                 )
             handle.cancel()
-            loop.stop()
+
+            if task.cancelled() or self._leaving is None:
+                loop.stop()
 
             if task.cancelled():
                 # 70 from sysexits.h means "internal software error"
-- 
2.43.0


From 1e116e2b9b12c6eb154e86eb5ba7039f8e4b1e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 18/90] fix: a signal failed when its receivers changed during
 the call

---
 aiomisc/signal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiomisc/signal.py b/aiomisc/signal.py
index 24d3106..4426468 100644
--- a/aiomisc/signal.py
+++ b/aiomisc/signal.py
@@ -36,7 +36,8 @@ class Signal:
         self._receivers.discard(receiver)  # type: ignore
 
     async def call(self, *args: Any, **kwargs: Any) -> None:
-        for receiver in self._receivers:
+        # might be changed by the receivers or while they are running
+        for receiver in tuple(self._receivers):
             await receiver(*args, **kwargs)
 
     def copy(self) -> "Signal":
-- 
2.43.0


From 9f2406e04729c37fdcd4bb2ac6bb185571a1493c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 19/90] fix: cancelling one waiter of a context key cancelled
 all the others

---
 aiomisc/context.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aiomisc/context.py b/aiomisc/context.py
index cb8de04..b4da42d 100644
--- a/aiomisc/context.py
+++ b/aiomisc/context.py
@@ -33,7 +33,9 @@ class Context:
 
     def __getitem__(self, item: Any) -> Any:
         self._statistic.get += 1
-        return self._storage[item]
+        # the future is shared, cancelling one of the waiters
+        # must not affect the others
+        return asyncio.shield(self._storage[item])
 
     def __setitem__(self, item: Any, value: Any) -> None:
         self._statistic.set += 1
-- 
2.43.0


From 24139fadeeeba007f9b4d0f27b0ce81146efae39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 20/90] fix: metrics declared by the bases of a base class were
 missing

---
 aiomisc/counters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/counters.py b/aiomisc/counters.py
index d191f6a..933ede0 100644
--- a/aiomisc/counters.py
+++ b/aiomisc/counters.py
@@ -64,7 +64,7 @@ class MetaStatistic(type):
 
         metrics = set()
 
-        for base_class in bases:
+        for base_class in klass.__mro__[1:]:
             if not issubclass(base_class, AbstractStatistic):
                 continue
 
-- 
2.43.0


From 8a042fb2ae575ea82cee75b3734024c1adc725e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 21/90] fix: values assigned to metrics were not reported

---
 aiomisc/counters.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/aiomisc/counters.py b/aiomisc/counters.py
index 933ede0..03aad2c 100644
--- a/aiomisc/counters.py
+++ b/aiomisc/counters.py
@@ -107,6 +107,18 @@ class Statistic(AbstractStatistic, metaclass=MetaStatistic):
 
         self.__instances__.add(self)
 
+    def __setattr__(self, name: str, value: Any) -> None:
+        metric = getattr(self, name, None)
+
+        if not isinstance(metric, Metric):
+            super().__setattr__(name, value)
+            return
+
+        # an assigned value must be reported, not replace the metric
+        if isinstance(value, Metric):
+            value = value.__get__()
+        metric.__set__(value)
+
 
 @dataclass(frozen=True)
 class StatisticResult:
-- 
2.43.0


From d985af72b8e15d5de1bd728f851f211f5a6f72c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 22/90] fix: reading the statistics failed when instances were
 created meanwhile

---
 aiomisc/counters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aiomisc/counters.py b/aiomisc/counters.py
index 03aad2c..6d2b893 100644
--- a/aiomisc/counters.py
+++ b/aiomisc/counters.py
@@ -138,11 +138,12 @@ class StatisticResult:
 def get_statistics(
     *kind: Type[Statistic],
 ) -> Generator[Any, Tuple[Statistic, str, int], None]:
-    for klass in CLASS_STORE:
+    # new ones might be created while the generator is consumed
+    for klass in tuple(CLASS_STORE):
         if kind and not issubclass(klass, kind):
             continue
 
-        for instance in klass.__instances__:
+        for instance in tuple(klass.__instances__):
             for metric, value in instance._counter.items():
                 yield StatisticResult(
                     kind=klass,
-- 
2.43.0


From 80a4e9975bd5a91f186bd33882853fe303536ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 23/90] fix: a message the socket accepted only in part was
 never completed

socket.send may accept fewer bytes than it was given, the rest was lost and
the peer took the following message for the rest of this one.
---
 aiomisc_worker/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc_worker/protocol.py b/aiomisc_worker/protocol.py
index 4721870..af5999e 100644
--- a/aiomisc_worker/protocol.py
+++ b/aiomisc_worker/protocol.py
@@ -67,7 +67,7 @@ class SocketIOProtocol(Protocol):
             return fp.getvalue()
 
     def _write(self, data: bytes) -> None:
-        self.sock.send(data)
+        self.sock.sendall(data)
 
 
 class AsyncProtocol:
-- 
2.43.0


From e379f955e00bd92338f8221decebc67d8fed47d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 24/90] fix: a short read from a file was taken for a whole
 message

A stream ending inside of a message now raises ConnectionError as it does
for sockets, instead of struct.error or an unpickling error.
---
 aiomisc_worker/protocol.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aiomisc_worker/protocol.py b/aiomisc_worker/protocol.py
index af5999e..39b5825 100644
--- a/aiomisc_worker/protocol.py
+++ b/aiomisc_worker/protocol.py
@@ -45,7 +45,13 @@ class FileIOProtocol(Protocol):
         self.fd = fd
 
     def _read(self, size: int) -> bytes:
-        return self.fd.read(size)
+        with io.BytesIO() as fp:
+            while fp.tell() < size:
+                chunk = self.fd.read(size - fp.tell())
+                if not chunk:
+                    raise ConnectionError("Remote didn't send any data")
+                fp.write(chunk)
+            return fp.getvalue()
 
     def _write(self, data: bytes) -> None:
         self.fd.write(data)
-- 
2.43.0


From 736260f8dbfac732767f515ffb23539809e184f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 25/90] fix: closing an asynchronous protocol did not end the
 stream

write_eof was called only for transports which cannot do that (raising
NotImplementedError), for all others nothing happened.
---
 aiomisc_worker/protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiomisc_worker/protocol.py b/aiomisc_worker/protocol.py
index 39b5825..431dab9 100644
--- a/aiomisc_worker/protocol.py
+++ b/aiomisc_worker/protocol.py
@@ -100,5 +100,6 @@ class AsyncProtocol:
         return pickle.loads(payload_bytes)
 
     def close(self) -> None:
-        if not self.writer.can_write_eof():
+        if self.writer.can_write_eof():
             self.writer.write_eof()
+        self.writer.close()
-- 
2.43.0


From 65e140d78083aa3c7efb54f3f320f336c1b60db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 26/90] fix: anybody could fail all tasks of a worker pool and
 close it

A BAD_INITIALIZER packet was obeyed before its digest was looked at.
---
 aiomisc/worker_pool.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/aiomisc/worker_pool.py b/aiomisc/worker_pool.py
index e4280bd..1bfd9f8 100644
--- a/aiomisc/worker_pool.py
+++ b/aiomisc/worker_pool.py
@@ -154,16 +154,7 @@ class WorkerPool:
             if self.__closing:
                 proto.close()
 
-        if packet_type == PacketTypes.BAD_INITIALIZER:
-            packet_type, exc = await proto.receive()
-            if packet_type != PacketTypes.EXCEPTION:
-                await proto.send(PacketTypes.BAD_PACKET)
-            else:
-                set_exception(self.__futures, exc)
-            await self.close()
-            return
-
-        if packet_type != PacketTypes.AUTH:
+        if packet_type not in (PacketTypes.AUTH, PacketTypes.BAD_INITIALIZER):
             await proto.send(PacketTypes.BAD_PACKET)
             if writer.can_write_eof():
                 writer.write_eof()
@@ -186,6 +177,15 @@ class WorkerPool:
             log.debug("Bad digest %r expected %r", digest, expected_digest)
             return
 
+        if packet_type == PacketTypes.BAD_INITIALIZER:
+            packet_type, exc = await proto.receive()
+            if packet_type != PacketTypes.EXCEPTION:
+                await proto.send(PacketTypes.BAD_PACKET)
+            else:
+                set_exception(self.__futures, exc)
+            await self.close()
+            return
+
         await proto.send(PacketTypes.AUTH_OK)
         self._statistic.processes += 1
         self._statistic.spawning += 1
-- 
2.43.0


From 64c0d0046b2753603e384178570fe37feaa26a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 27/90] fix: a request or reply which can't be pickled cost the
 pool a worker

The connection was closed, so the worker exited normally and the supervisor
never started another one. The pool hung after as many such tasks as it had
workers.
---
 aiomisc/worker_pool.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/aiomisc/worker_pool.py b/aiomisc/worker_pool.py
index 1bfd9f8..40d9b16 100644
--- a/aiomisc/worker_pool.py
+++ b/aiomisc/worker_pool.py
@@ -232,14 +232,11 @@ class WorkerPool:
                         )
                     break
                 except Exception as e:
+                    # The request can't be pickled (nothing was sent) or the
+                    # reply can't be unpickled (it was read completely), the
+                    # worker itself is fine.
                     if not result_future.done():
                         result_future.set_exception(e)
-
-                    if not writer.is_closing():
-                        if writer.can_write_eof():
-                            writer.write_eof()
-                        writer.close()
-                    raise
         finally:
             self._statistic.processes -= 1
             self.pids.discard(pid)
-- 
2.43.0


From fb9e87efb494240cbff6c1e0ad29c28ae7447f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 28/90] fix: cancelling a task could interrupt another one or
 nothing

The signal was sent although the worker had already finished the task (and
went on with another one, or was idle and died), also when the task itself
raised CancelledError, and it was not sent when the task was cancelled
before the caller has noticed that a worker took it.
---
 aiomisc/worker_pool.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/aiomisc/worker_pool.py b/aiomisc/worker_pool.py
index 40d9b16..2449995 100644
--- a/aiomisc/worker_pool.py
+++ b/aiomisc/worker_pool.py
@@ -4,6 +4,7 @@ import hmac
 import os
 import socket
 import sys
+from contextlib import suppress
 from inspect import Traceback
 from multiprocessing import ProcessError
 from os import chmod, urandom
@@ -127,6 +128,7 @@ class WorkerPool:
         self.__cookie = urandom(COOKIE_SIZE)
         self.__loop: Optional[asyncio.AbstractEventLoop] = None
         self.__futures: Set[asyncio.Future] = set()
+        self.__running: Dict[asyncio.Future, int] = {}
         self.__task_store: Set[asyncio.Task] = set()
         self.__closing = False
         self.__closing_lock = asyncio.Lock()
@@ -208,8 +210,14 @@ class WorkerPool:
 
                 try:
                     process_future.set_result(pid)
-                    await proto.send((PacketTypes.REQUEST, func, args, kwargs))
-                    packet_type, payload = await proto.receive()
+                    self.__running[result_future] = pid
+                    try:
+                        await proto.send(
+                            (PacketTypes.REQUEST, func, args, kwargs),
+                        )
+                        packet_type, payload = await proto.receive()
+                    finally:
+                        del self.__running[result_future]
 
                     if result_future.done():
                         log.debug(
@@ -318,17 +326,23 @@ class WorkerPool:
         result_future = self.__create_future()
         process_future = self.__create_future()
 
-        await self.tasks.put((
-            func, args, kwargs, result_future, process_future,
-        ))
-
-        pid: int = await process_future
-
         try:
+            await self.tasks.put((
+                func, args, kwargs, result_future, process_future,
+            ))
+            await process_future
             return await result_future
         except asyncio.CancelledError:
-            log.debug("Sending %r to worker PID: %d", SIGNAL, pid)
-            os.kill(pid, SIGNAL)
+            process_future.cancel()
+            result_future.cancel()
+
+            # Only the process which is executing exactly this
+            # task must be interrupted.
+            pid = self.__running.get(result_future)
+            if pid is not None:
+                log.debug("Sending %r to worker PID: %d", SIGNAL, pid)
+                with suppress(ProcessLookupError):
+                    os.kill(pid, SIGNAL)
             raise
 
     async def __aenter__(self) -> "WorkerPool":
-- 
2.43.0


From 78456ac885281b3d257c45333740df692278ee3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 29/90] fix: closing a worker pool did not end all callers

Those waiting for room in the queue, and those coming after the end, waited
forever.
---
 aiomisc/worker_pool.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/aiomisc/worker_pool.py b/aiomisc/worker_pool.py
index 2449995..a61af5a 100644
--- a/aiomisc/worker_pool.py
+++ b/aiomisc/worker_pool.py
@@ -323,13 +323,19 @@ class WorkerPool:
         self, func: Callable[..., T],
         *args: Any, **kwargs: Any,
     ) -> T:
+        if self.__closing:
+            raise RuntimeError("Pool closed")
+
         result_future = self.__create_future()
         process_future = self.__create_future()
 
         try:
-            await self.tasks.put((
-                func, args, kwargs, result_future, process_future,
-            ))
+            # The task will be cancelled when the pool is closing
+            await self.__task(
+                self.tasks.put((
+                    func, args, kwargs, result_future, process_future,
+                )),
+            )
             await process_future
             return await result_future
         except asyncio.CancelledError:
-- 
2.43.0


From 3c91ed4eca328433d5ca09074a93571bfa94d7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 30/90] fix: a task was failed because of a worker which had
 exited before

The handler of a worker which died when idle went on waiting for a task and
failed it with ProcessError.
---
 aiomisc/worker_pool.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/aiomisc/worker_pool.py b/aiomisc/worker_pool.py
index a61af5a..78a9fb5 100644
--- a/aiomisc/worker_pool.py
+++ b/aiomisc/worker_pool.py
@@ -201,9 +201,15 @@ class WorkerPool:
                 result_future: asyncio.Future
                 process_future: asyncio.Future
 
-                (
-                    func, args, kwargs, result_future, process_future,
-                ) = await self.tasks.get()
+                task = await self.tasks.get()
+
+                if reader.at_eof() or reader.exception() is not None:
+                    # This worker has exited while waiting for the task,
+                    # another one should execute it.
+                    await self.tasks.put(task)
+                    break
+
+                func, args, kwargs, result_future, process_future = task
 
                 if process_future.done() or result_future.done():
                     continue
-- 
2.43.0


From b72539d1d10b13e0fd6a823927dfc3985be59f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 31/90] fix: most DNS record types could not be added to a zone

Hashing used the attribute "data" which only some of the types have (and
which is a list for TXT), so adding MX, TXT, SOA, SRV, NAPTR, DS, DNSKEY,
RRSIG, NSEC, HTTPS, LOC, RP, TLSA or SSHFP records failed.
---
 aiomisc/service/dns/records.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/aiomisc/service/dns/records.py b/aiomisc/service/dns/records.py
index 34ddf25..efd9bab 100644
--- a/aiomisc/service/dns/records.py
+++ b/aiomisc/service/dns/records.py
@@ -72,9 +72,18 @@ class DNSClass(enum.IntEnum):
     ASTERISK = 255
 
 
+def _hashable(value: Any) -> Hashable:
+    if isinstance(value, (list, tuple)):
+        return tuple(map(_hashable, value))
+    if isinstance(value, bytearray):
+        return bytes(value)
+    return value
+
+
 class RD(dnslib.RD, Hashable, ABC):
     def __hash__(self) -> int:
-        return hash(self.data)
+        # The same attributes are compared by dnslib.RD.__eq__
+        return hash(tuple(_hashable(getattr(self, x)) for x in self.attrs))
 
     @classmethod
     @abstractmethod
@@ -314,6 +323,9 @@ class HTTPS(dnslib.HTTPS, RD):
 
 
 class LOC(dnslib.LOC, RD):
+    # dnslib declares the "data" which doesn't exist
+    attrs = ("_lat", "_lon", "_alt", "_siz", "_hp", "_vp")
+
     @classmethod
     def create(
         cls, name: str, latitude: float, longitude: float,
-- 
2.43.0


From e3735b7444ff4bfdf12a010d80beb3836b40dba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 32/90] fix: a zone hid the records of the zone above after its
 removal

The longest prefix was the path walked down, also through nodes without a
value (zones which were removed, or gaps between nested zones), therefore
names below the last one were looked up in a zone which doesn't exist.
---
 aiomisc/service/dns/tree.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/aiomisc/service/dns/tree.py b/aiomisc/service/dns/tree.py
index 1b32eec..58853f1 100644
--- a/aiomisc/service/dns/tree.py
+++ b/aiomisc/service/dns/tree.py
@@ -1,4 +1,4 @@
-from typing import Any, Dict, Generic, Hashable, List, Optional, Tuple, TypeVar
+from typing import Any, Dict, Generic, Hashable, Optional, Tuple, TypeVar
 
 
 K = Tuple[str, ...]
@@ -39,21 +39,21 @@ class RadixTree(Generic[T]):
 
     def find_prefix(self, key: K) -> Optional[Tuple[K, T]]:
         node = self.root
-        longest_prefix: List[str] = []
+        length = 0
         value = None
         part: Hashable
         if node.value is not None:
             value = node.value
-        for part in key:
+        for depth, part in enumerate(key, start=1):
             if part in node.children:
                 node = node.children[part]
-                longest_prefix.append(part)
                 if node.value is not None:
                     value = node.value
+                    length = depth
             else:
                 break
 
         if value is None:
             return None
 
-        return tuple(longest_prefix), value
+        return tuple(key[:length]), value
-- 
2.43.0


From 1a0cdfa84a239e6fb0a5388120b2ddd6f5cd3792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 33/90] fix: a zone accepted records of foreign names with the
 same ending

"badexample.com." was taken for a part of the zone "example.com.".
---
 aiomisc/service/dns/zone.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aiomisc/service/dns/zone.py b/aiomisc/service/dns/zone.py
index 8ed501c..37041cb 100644
--- a/aiomisc/service/dns/zone.py
+++ b/aiomisc/service/dns/zone.py
@@ -45,7 +45,11 @@ class DNSZone:
         return tuple(self.records.get((name, record_type), ()))
 
     def check_record(self, record: DNSRecord) -> bool:
-        return record.name.endswith(self.name)
+        if self.name == ".":
+            return record.name.endswith(".")
+        return (
+            record.name == self.name or record.name.endswith(f".{self.name}")
+        )
 
     def replace(self, records: Iterable[DNSRecord]) -> None:
         """
-- 
2.43.0


From 2581d0d5985b47ad7c7a6f9c218c8b3080217380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 34/90] fix: the root zone was never used to answer a query

---
 aiomisc/service/dns/store.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aiomisc/service/dns/store.py b/aiomisc/service/dns/store.py
index bd3d976..56cdf7e 100644
--- a/aiomisc/service/dns/store.py
+++ b/aiomisc/service/dns/store.py
@@ -36,7 +36,7 @@ class DNSStore:
         if not name.endswith("."):
             name += "."
         zone_tuple = self.get_zone_for_name(name)
-        if not zone_tuple:
+        if zone_tuple is None:
             return ()
         zone = self.zones.search(zone_tuple)
         return zone.get_records(name, record_type) if zone is not None else ()
@@ -48,7 +48,8 @@ class DNSStore:
 
     @staticmethod
     def get_reverse_tuple(zone_name: str) -> Tuple[str, ...]:
-        return tuple(zone_name.strip(".").split("."))[::-1]
+        labels = zone_name.strip(".")
+        return tuple(labels.split("."))[::-1] if labels else ()
 
     def replace(
         self, zones_data: Mapping[str, Iterable[DNSRecord]],
-- 
2.43.0


From 5efa31422f4592d859734e9c97965cda064a3a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 35/90] fix: different CAA records of a name were taken for one

---
 aiomisc/service/dns/records.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aiomisc/service/dns/records.py b/aiomisc/service/dns/records.py
index efd9bab..4c4218c 100644
--- a/aiomisc/service/dns/records.py
+++ b/aiomisc/service/dns/records.py
@@ -221,6 +221,9 @@ class SRV(dnslib.SRV, RD):
 
 
 class CAA(dnslib.CAA, RD):
+    # dnslib compares the "data" which is always None
+    attrs = ("flags", "tag", "value")
+
     @classmethod
     def create(
         cls, name: str, flags: int, tag: str, value: str,
-- 
2.43.0


From a508799cdef620e6f39d6dff3eb07dff328121ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:04 +0000
Subject: [PATCH 36/90] fix: DNS answers were cut in the middle, or not cut, or
 marked as cut over TCP

---
 aiomisc/service/dns/service.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/aiomisc/service/dns/service.py b/aiomisc/service/dns/service.py
index 28d6895..4058d43 100644
--- a/aiomisc/service/dns/service.py
+++ b/aiomisc/service/dns/service.py
@@ -16,6 +16,8 @@ log = logging.getLogger(__name__)
 
 
 class DNSServer:
+    MAX_SIZE = 65535
+
     store: DNSStore
 
     __proto__: str
@@ -60,12 +62,15 @@ class DNSServer:
 
             reply_body = reply.pack()
 
-            if len(reply_body) > 512:
+            max_size = self.MAX_SIZE
+            if should_truncate and edns_max_size is not None:
+                max_size = max(max_size, edns_max_size)
+
+            if len(reply_body) > max_size:
+                # The rest of the answer might be obtained over TCP
                 reply.header.tc = 1
+                reply.rr.clear()
                 reply_body = reply.pack()
-
-            if should_truncate:
-                reply_body = reply_body[:edns_max_size]
         except Exception as e:
             log.exception(
                 "Failed to process %s request from %r: %s",
-- 
2.43.0


From 20241b0bd4bf39f412f02d37e21072c400149e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:05 +0000
Subject: [PATCH 37/90] fix: DNS over TCP lost requests which came in parts

---
 aiomisc/service/dns/service.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/aiomisc/service/dns/service.py b/aiomisc/service/dns/service.py
index 4058d43..c608e9a 100644
--- a/aiomisc/service/dns/service.py
+++ b/aiomisc/service/dns/service.py
@@ -119,10 +119,7 @@ class TCPDNSServer(DNSServer, TCPServer):
                 if not data:
                     break
                 length = TCP_HEADER_STRUCT.unpack(data)[0]
-                packet = await reader.read(length)
-
-                if not data:
-                    break
+                packet = await reader.readexactly(length)
 
                 reply_body, _ = self.handle_request(data=packet, addr=addr)
 
-- 
2.43.0


From 444073e597e58594d0bc20e5b8442321c3522673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:48 +0000
Subject: [PATCH 38/90] fix: NAPTR, RRSIG, NSEC and HTTPS records could not be
 sent

---
 aiomisc/service/dns/records.py | 57 ++++++++++++++++++++++++++++++++++
 1 file changed, 57 insertions(+)

diff --git a/aiomisc/service/dns/records.py b/aiomisc/service/dns/records.py
index 4c4218c..a7d9e2e 100644
--- a/aiomisc/service/dns/records.py
+++ b/aiomisc/service/dns/records.py
@@ -80,6 +80,10 @@ def _hashable(value: Any) -> Hashable:
     return value
 
 
+def _to_bytes(value: Any) -> bytes:
+    return value.encode() if isinstance(value, str) else bytes(value)
+
+
 class RD(dnslib.RD, Hashable, ABC):
     def __hash__(self) -> int:
         # The same attributes are compared by dnslib.RD.__eq__
@@ -238,6 +242,19 @@ class CAA(dnslib.CAA, RD):
 
 
 class NAPTR(dnslib.NAPTR, RD):
+    def _raw(self) -> dnslib.NAPTR:
+        return dnslib.NAPTR(
+            self.order, self.preference, _to_bytes(self.flags),
+            _to_bytes(self.service), _to_bytes(self.regexp),
+            self.replacement,
+        )
+
+    def pack(self, buffer: Any) -> None:
+        self._raw().pack(buffer)
+
+    def __repr__(self) -> str:
+        return repr(self._raw())
+
     @classmethod
     def create(
         cls, name: str, order: int, preference: int, flags: str,
@@ -280,6 +297,19 @@ class DNSKEY(dnslib.DNSKEY, RD):
 
 
 class RRSIG(dnslib.RRSIG, RD):
+    def _raw(self) -> dnslib.RRSIG:
+        return dnslib.RRSIG(
+            self.covered, self.algorithm, self.labels, self.orig_ttl,
+            self.sig_exp, self.sig_inc, self.key_tag, self.name,
+            _to_bytes(self.sig),
+        )
+
+    def pack(self, buffer: Any) -> None:
+        self._raw().pack(buffer)
+
+    def __repr__(self) -> str:
+        return repr(self._raw())
+
     @classmethod
     def create(
         cls, name: str, type_covered: int, algorithm: int, labels: int,
@@ -298,6 +328,20 @@ class RRSIG(dnslib.RRSIG, RD):
 
 
 class NSEC(dnslib.NSEC, RD):
+    def _raw(self) -> dnslib.NSEC:
+        return dnslib.NSEC(
+            self.label, [
+                t if isinstance(t, str) else dnslib.QTYPE[int(t)]
+                for t in self.rrlist
+            ],
+        )
+
+    def pack(self, buffer: Any) -> None:
+        self._raw().pack(buffer)
+
+    def __repr__(self) -> str:
+        return repr(self._raw())
+
     @classmethod
     def create(
         cls, name: str, next_domain: str,
@@ -312,6 +356,19 @@ class NSEC(dnslib.NSEC, RD):
 
 
 class HTTPS(dnslib.HTTPS, RD):
+    def _raw(self) -> dnslib.HTTPS:
+        if not isinstance(self.target, str):
+            return dnslib.HTTPS(self.priority, self.target, self.params)
+        return dnslib.HTTPS.fromZone([
+            str(self.priority), self.target.rstrip(".") + ".", *self.params,
+        ])
+
+    def pack(self, buffer: Any) -> None:
+        self._raw().pack(buffer)
+
+    def __repr__(self) -> str:
+        return repr(self._raw())
+
     @classmethod
     def create(
         cls, name: str, priority: int, target: str,
-- 
2.43.0


From 6f758daa1a217d354fb22319be2af1811060a7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:00 +0000
Subject: [PATCH 39/90] fix: a full log buffer raised into the logging code

---
 aiomisc/log.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/aiomisc/log.py b/aiomisc/log.py
index 14a1bf6..333c10a 100644
--- a/aiomisc/log.py
+++ b/aiomisc/log.py
@@ -4,7 +4,7 @@ import threading
 import traceback
 import warnings
 from contextlib import suppress
-from queue import Empty, Queue
+from queue import Empty, Full, Queue
 from socket import socket
 from typing import (
     Any, Callable, Dict, Iterable, List, Optional, Tuple, Type, Union,
@@ -55,7 +55,12 @@ class ThreadedHandler(logging.Handler):
 
     def emit(self, record: logging.LogRecord) -> None:
         if self._buffered:
-            self._queue.put_nowait(record)
+            try:
+                self._queue.put_nowait(record)
+            except Full:
+                self._statistic.errors += 1
+                self.handleError(record)
+                return
         else:
             self._queue.put(record)
         self._statistic.records += 1
-- 
2.43.0


From 7597c05cb9e74a55c4036e7071ae288282f6b608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:00 +0000
Subject: [PATCH 40/90] fix: logging waited for the target, or forever when the
 queue was full

---
 aiomisc/log.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aiomisc/log.py b/aiomisc/log.py
index 333c10a..0477503 100644
--- a/aiomisc/log.py
+++ b/aiomisc/log.py
@@ -70,7 +70,8 @@ class ThreadedHandler(logging.Handler):
         while not self._close_event.is_set():
             self._flush_event.wait(self._flush_interval)
             try:
-                self.acquire()
+                # The handler's lock must not be held here. The loggers
+                # hold it and wait for a room in the queue.
                 while True:
                     record = queue.get(timeout=self._flush_interval)
                     if record is None:
@@ -79,8 +80,6 @@ class ThreadedHandler(logging.Handler):
                         self._target.handle(record)
             except Empty:
                 pass
-            finally:
-                self.release()
         self._statistic.threads -= 1
 
 
-- 
2.43.0


From 5ecdab43be987c58a904f486d7c8d5d931599f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:00 +0000
Subject: [PATCH 41/90] fix: closing a log handler lost records, closing it
 twice raised

---
 aiomisc/log.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/aiomisc/log.py b/aiomisc/log.py
index 0477503..543e713 100644
--- a/aiomisc/log.py
+++ b/aiomisc/log.py
@@ -33,7 +33,7 @@ class ThreadedHandler(logging.Handler):
         self._target = target
         self._flush_interval = flush_interval
         self._flush_event = threading.Event()
-        self._queue: Queue[Optional[logging.LogRecord]] = Queue(queue_size)
+        self._queue: Queue[logging.LogRecord] = Queue(queue_size)
         self._close_event = threading.Event()
         self._thread = threading.Thread(target=self._in_thread, daemon=True)
         self._statistic = ThreadedHandlerStatistic()
@@ -43,10 +43,15 @@ class ThreadedHandler(logging.Handler):
         self._thread.start()
 
     def close(self) -> None:
-        self._queue.put(None)
-        del self._queue
+        self.acquire()
+        try:
+            if self._close_event.is_set():
+                return
+            self._close_event.set()
+        finally:
+            self.release()
+
         self.flush()
-        self._close_event.set()
         super().close()
 
     def flush(self) -> None:
@@ -54,6 +59,9 @@ class ThreadedHandler(logging.Handler):
         self._flush_event.set()
 
     def emit(self, record: logging.LogRecord) -> None:
+        if self._close_event.is_set():
+            return
+
         if self._buffered:
             try:
                 self._queue.put_nowait(record)
@@ -66,16 +74,18 @@ class ThreadedHandler(logging.Handler):
         self._statistic.records += 1
 
     def _in_thread(self) -> None:
-        queue = self._queue
-        while not self._close_event.is_set():
+        closed = False
+        while not closed:
             self._flush_event.wait(self._flush_interval)
+            # no records will be accepted after the event is set
+            closed = self._close_event.is_set()
             try:
                 # The handler's lock must not be held here. The loggers
                 # hold it and wait for a room in the queue.
                 while True:
-                    record = queue.get(timeout=self._flush_interval)
-                    if record is None:
-                        return
+                    record = self._queue.get(
+                        timeout=0 if closed else self._flush_interval,
+                    )
                     with suppress(Exception):
                         self._target.handle(record)
             except Empty:
-- 
2.43.0


From e6aea43932c0c796ee41240d93d38a65ea40ace2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:00 +0000
Subject: [PATCH 42/90] fix: only the last one of log handlers was closed

---
 aiomisc/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/log.py b/aiomisc/log.py
index 543e713..545b97c 100644
--- a/aiomisc/log.py
+++ b/aiomisc/log.py
@@ -205,7 +205,7 @@ def basic_config(
             target=user_handler,
         )
         unhandled_hook.add_handler(handler)
-        forever_task.add_done_callback(lambda _: handler.close())
+        forever_task.add_done_callback(lambda _, h=handler: h.close())
         log_handlers.append(handler)
         handler.start()
 
-- 
2.43.0


From b5958f23ecc6460ad86e30085834a360768d3fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:04 +0000
Subject: [PATCH 43/90] fix: records with custom levels could not be formatted
 as JSON

---
 aiomisc_log/formatter/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc_log/formatter/json.py b/aiomisc_log/formatter/json.py
index 6f8a526..781f8cd 100644
--- a/aiomisc_log/formatter/json.py
+++ b/aiomisc_log/formatter/json.py
@@ -99,7 +99,7 @@ class JSONLogFormatter(logging.Formatter):
         payload = {
             "@fields": data,
             "msg": self.formatMessage(record),
-            "level": self.LEVELS[record.levelno],
+            "level": self.LEVELS.get(record.levelno, record.levelname),
         }   # type: JSONObjType
 
         if self.datefmt:
-- 
2.43.0


From af6a772a0cb679c25105f30c499f2d78babcdc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:04 +0000
Subject: [PATCH 44/90] fix: records without a process or line could not be
 formatted as JSON

---
 aiomisc_log/formatter/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc_log/formatter/json.py b/aiomisc_log/formatter/json.py
index 781f8cd..61ca320 100644
--- a/aiomisc_log/formatter/json.py
+++ b/aiomisc_log/formatter/json.py
@@ -71,7 +71,7 @@ class JSONLogFormatter(logging.Formatter):
 
             v = record_dict.get(key)
 
-            if not isinstance(v, field_type):
+            if v is not None and not isinstance(v, field_type):
                 v = field_type(v)
 
             data[mapping] = v
-- 
2.43.0


From 35adab5eadd8edd4402320ca6d6a3c5b5024683d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:04 +0000
Subject: [PATCH 45/90] fix: values of named log arguments were lost in JSON

---
 aiomisc_log/formatter/json.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aiomisc_log/formatter/json.py b/aiomisc_log/formatter/json.py
index 61ca320..b926e5f 100644
--- a/aiomisc_log/formatter/json.py
+++ b/aiomisc_log/formatter/json.py
@@ -3,7 +3,7 @@ import logging
 import sys
 import traceback
 from types import MappingProxyType
-from typing import IO, Any, Callable, Dict, List, Optional, Union
+from typing import IO, Any, Callable, Dict, Mapping, Optional, Union
 
 
 try:
@@ -91,10 +91,12 @@ class JSONLogFormatter(logging.Formatter):
 
             data[key] = record_value
 
-        args: List[Any] = data.pop("args", [])
+        args: Any = data.pop("args", [])
 
-        for idx, item in enumerate(args):
-            data["argument_%d" % idx] = str(item)
+        for idx, item in (
+            args.items() if isinstance(args, Mapping) else enumerate(args)
+        ):
+            data[f"argument_{idx}"] = str(item)
 
         payload = {
             "@fields": data,
-- 
2.43.0


From 7a1af508fec2eb57bdb28e36365fe305c6fb80f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:04 +0000
Subject: [PATCH 46/90] fix: records with odd extra names or values could not
 be formatted as JSON

---
 aiomisc_log/formatter/json.py | 37 +++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/aiomisc_log/formatter/json.py b/aiomisc_log/formatter/json.py
index b926e5f..1be33fd 100644
--- a/aiomisc_log/formatter/json.py
+++ b/aiomisc_log/formatter/json.py
@@ -1,9 +1,10 @@
 import json
 import logging
+import math
 import sys
 import traceback
 from types import MappingProxyType
-from typing import IO, Any, Callable, Dict, Mapping, Optional, Union
+from typing import IO, Any, Callable, Dict, Mapping, Optional, Tuple, Union
 
 
 try:
@@ -18,10 +19,38 @@ JSONObjType = Dict[str, Any]
 DumpsType = Callable[[JSONObjType, Any], str]
 
 
+def _repr(obj: Any) -> str:
+    try:
+        return repr(obj)
+    except Exception:
+        return object.__repr__(obj)
+
+
+def _simplify(obj: Any, parents: Tuple[int, ...] = ()) -> Any:
+    """Makes a copy which might be represented in JSON"""
+    if isinstance(obj, (dict, list, tuple)):
+        if id(obj) in parents:
+            return _repr(obj)
+        parents += (id(obj),)
+        if isinstance(obj, dict):
+            return {
+                key if isinstance(key, str) else _repr(key):
+                _simplify(value, parents) for key, value in obj.items()
+            }
+        return [_simplify(item, parents) for item in obj]
+    if isinstance(obj, float) and not math.isfinite(obj):
+        return repr(obj)
+    return obj
+
+
 def _dump_json(obj: JSONObjType, *args: Any, **kwargs: Any) -> str:
-    kwargs["default"] = repr
+    kwargs["default"] = _repr
     kwargs["ensure_ascii"] = False
-    return json.dumps(obj, *args, **kwargs)
+    kwargs["allow_nan"] = False
+    try:
+        return json.dumps(obj, *args, **kwargs)
+    except (TypeError, ValueError):
+        return json.dumps(_simplify(obj), *args, **kwargs)
 
 
 class JSONLogFormatter(logging.Formatter):
@@ -81,7 +110,7 @@ class JSONLogFormatter(logging.Formatter):
                 continue
             elif key in self.FIELD_MAPPING:
                 continue
-            elif key[0] == "_":
+            elif isinstance(key, str) and key.startswith("_"):
                 continue
 
             record_value: Any = record_dict[key]
-- 
2.43.0


From 12cd6211f68f149e89c4674e57c03e5e57fde10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:08 +0000
Subject: [PATCH 47/90] fix: TLS clients did not verify servers

---
 aiomisc/service/tls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/service/tls.py b/aiomisc/service/tls.py
index cd1f59c..50cb0ed 100644
--- a/aiomisc/service/tls.py
+++ b/aiomisc/service/tls.py
@@ -92,7 +92,7 @@ class SSLOptions(SSLOptionsBase):
             context.verify_mode = ssl.VerifyMode.CERT_REQUIRED
             # Post-handshake authentication is required
             context.post_handshake_auth = True
-        else:
+        elif not self.verify or self.purpose != ssl.Purpose.SERVER_AUTH:
             # Disable server-side cert verification
             context.check_hostname = False
             context.verify_mode = ssl.VerifyMode.CERT_NONE
-- 
2.43.0


From 3838d27474ad6e5be8457e4bab637f74f4111e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:04 +0000
Subject: [PATCH 48/90] fix: servers requiring client certificates accepted
 clients without them

---
 aiomisc/service/tls.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aiomisc/service/tls.py b/aiomisc/service/tls.py
index 50cb0ed..2158616 100644
--- a/aiomisc/service/tls.py
+++ b/aiomisc/service/tls.py
@@ -90,8 +90,10 @@ class SSLOptions(SSLOptionsBase):
         if self.require_client_cert:
             log.debug("Set server-side cert verification")
             context.verify_mode = ssl.VerifyMode.CERT_REQUIRED
-            # Post-handshake authentication is required
-            context.post_handshake_auth = True
+            # Servers should request the certificate in the handshake and not
+            # postpone it, only clients have to allow to do it afterwards.
+            if self.purpose == ssl.Purpose.SERVER_AUTH:
+                context.post_handshake_auth = True
         elif not self.verify or self.purpose != ssl.Purpose.SERVER_AUTH:
             # Disable server-side cert verification
             context.check_hostname = False
-- 
2.43.0


From e728a3f004238b93d81c2aa0b7b2040a54d48650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:02 +0000
Subject: [PATCH 49/90] fix: clients coming while a server stops were handled
 after its stop

---
 aiomisc/service/base.py | 8 ++++++--
 aiomisc/service/tcp.py  | 5 +++++
 aiomisc/service/tls.py  | 7 ++++++-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/aiomisc/service/base.py b/aiomisc/service/base.py
index f342574..7592fb9 100644
--- a/aiomisc/service/base.py
+++ b/aiomisc/service/base.py
@@ -134,12 +134,16 @@ class SimpleServer(TaskStoreBase):
     async def start(self) -> None:
         raise NotImplementedError
 
-    async def stop(self, exc: Optional[Exception] = None) -> None:
-        await super().stop(exc)
+    def _is_closed(self) -> bool:
+        return self.server is not None and not self.server.is_serving()
 
+    async def stop(self, exc: Optional[Exception] = None) -> None:
+        # No clients should be accepted while the handlers are finishing
         if self.server:
             self.server.close()
 
+        await super().stop(exc)
+
 
 class SimpleClient(TaskStoreBase):
     @abstractmethod
diff --git a/aiomisc/service/tcp.py b/aiomisc/service/tcp.py
index 850c92b..c77b5d2 100644
--- a/aiomisc/service/tcp.py
+++ b/aiomisc/service/tcp.py
@@ -59,6 +59,11 @@ class TCPServer(SimpleServer):
         self, reader: asyncio.StreamReader,
         writer: asyncio.StreamWriter,
     ) -> Any:
+        if self._is_closed():
+            # has been accepted just before the server was closed
+            writer.close()
+            return None
+
         return self.create_task(self.__client_handler(reader, writer))
 
     async def start(self) -> None:
diff --git a/aiomisc/service/tls.py b/aiomisc/service/tls.py
index 2158616..bf3cf74 100644
--- a/aiomisc/service/tls.py
+++ b/aiomisc/service/tls.py
@@ -159,7 +159,12 @@ class TLSServer(SimpleServer):
     def make_client_handler(
         self, reader: asyncio.StreamReader,
         writer: asyncio.StreamWriter,
-    ) -> asyncio.Task:
+    ) -> Any:
+        if self._is_closed():
+            # has been accepted just before the server was closed
+            writer.close()
+            return None
+
         return self.create_task(self.__client_handler(reader, writer))
 
     @abstractmethod
-- 
2.43.0


From c227eb2286251fe1f2ca7b1199f557615745f1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 50/90] fix: a stopping server waited for its clients to close
 connections

---
 aiomisc/service/base.py | 9 ++++++++-
 aiomisc/service/tcp.py  | 1 +
 aiomisc/service/tls.py  | 1 +
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/aiomisc/service/base.py b/aiomisc/service/base.py
index 7592fb9..3da7797 100644
--- a/aiomisc/service/base.py
+++ b/aiomisc/service/base.py
@@ -1,8 +1,10 @@
 import asyncio
 from abc import ABC, ABCMeta, abstractmethod
 from typing import (
-    Any, Coroutine, Dict, Generator, Optional, Set, Tuple, TypeVar, Union,
+    Any, Coroutine, Dict, Generator, MutableSet, Optional, Set, Tuple, TypeVar,
+    Union,
 )
+from weakref import WeakSet
 
 from ..context import Context, get_context
 from ..utils import cancel_tasks
@@ -128,6 +130,7 @@ class SimpleServer(TaskStoreBase):
     def __init__(self, **kwargs: Any):
         self.server: Optional[asyncio.AbstractServer] = None
         self.tasks: Set[asyncio.Task] = set()
+        self._writers: MutableSet[asyncio.StreamWriter] = WeakSet()
         super().__init__(**kwargs)
 
     @abstractmethod
@@ -144,6 +147,10 @@ class SimpleServer(TaskStoreBase):
 
         await super().stop(exc)
 
+        # Otherwise the server waits until the clients close them
+        for writer in tuple(self._writers):
+            writer.close()
+
 
 class SimpleClient(TaskStoreBase):
     @abstractmethod
diff --git a/aiomisc/service/tcp.py b/aiomisc/service/tcp.py
index c77b5d2..9d3d5dc 100644
--- a/aiomisc/service/tcp.py
+++ b/aiomisc/service/tcp.py
@@ -64,6 +64,7 @@ class TCPServer(SimpleServer):
             writer.close()
             return None
 
+        self._writers.add(writer)
         return self.create_task(self.__client_handler(reader, writer))
 
     async def start(self) -> None:
diff --git a/aiomisc/service/tls.py b/aiomisc/service/tls.py
index bf3cf74..82a9cb9 100644
--- a/aiomisc/service/tls.py
+++ b/aiomisc/service/tls.py
@@ -165,6 +165,7 @@ class TLSServer(SimpleServer):
             writer.close()
             return None
 
+        self._writers.add(writer)
         return self.create_task(self.__client_handler(reader, writer))
 
     @abstractmethod
-- 
2.43.0


From a41547a0cf3dbc46229bfb5fa90449278fbbb4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 51/90] fix: datagrams coming while a server stops were handled
 after its stop

---
 aiomisc/service/udp.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/aiomisc/service/udp.py b/aiomisc/service/udp.py
index 1fadcb2..3eb006e 100644
--- a/aiomisc/service/udp.py
+++ b/aiomisc/service/udp.py
@@ -26,12 +26,16 @@ class UDPServer(SimpleServer):
             self.handler = awaitable(handle_datagram)
             self.transport: TransportType = None
             self.loop: Optional[asyncio.AbstractEventLoop] = None
+            self.closing: bool = False
 
         def connection_made(self, transport: Any) -> None:
             self.transport = transport
             self.loop = asyncio.get_running_loop()
 
         def datagram_received(self, data: bytes, addr: tuple) -> None:
+            if self.closing:
+                return
+
             self.task_factory(self.handler(data, addr))
 
     def __init__(
@@ -60,7 +64,7 @@ class UDPServer(SimpleServer):
             self.make_socket = lambda: sock     # type: ignore
 
         self._transport: TransportType = None
-        self._protocol: Optional[asyncio.DatagramProtocol] = None
+        self._protocol: Optional[UDPServer.UDPSimpleProtocol] = None
         self.socket: Optional[socket.socket] = None
         super().__init__(**kwargs)
 
@@ -109,6 +113,10 @@ class UDPServer(SimpleServer):
         return None
 
     async def stop(self, exc: Optional[Exception] = None) -> None:
+        # Handlers still can answer, but no more datagrams should be handled
+        if self._protocol:
+            self._protocol.closing = True
+
         await super().stop(exc)
         if self._transport:
             self._transport.close()
-- 
2.43.0


From 57ddf83859411f00311d80e9dedaf53b36d45550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 52/90] fix: IPv6 sockets were not switched to dual stack

---
 aiomisc/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aiomisc/utils.py b/aiomisc/utils.py
index 9613245..2530779 100644
--- a/aiomisc/utils.py
+++ b/aiomisc/utils.py
@@ -76,6 +76,8 @@ def bind_socket(
     :return: socket.socket
     """
 
+    dual_stack = not args and ":" in address
+
     if not args:
         if ":" in address:
             args = (socket.AF_INET6, socket.SOCK_STREAM)
@@ -85,7 +87,7 @@ def bind_socket(
     sock = socket.socket(*args)
     sock.setblocking(False)
 
-    if not args and ":" in address:
+    if dual_stack:
         sock.setsockopt(socket.IPPROTO_IPV6, socket.IPV6_V6ONLY, 0)
 
     if reuse_addr:
-- 
2.43.0


From cef46b5e0927113b8507c12c46bcb6b44f3a81dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:12 +0000
Subject: [PATCH 53/90] fix: concurrent opening of an asynchronous file opened
 it twice

---
 aiomisc/io.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/aiomisc/io.py b/aiomisc/io.py
index a95f49b..6234388 100644
--- a/aiomisc/io.py
+++ b/aiomisc/io.py
@@ -65,7 +65,7 @@ def proxy_method_async(
 @total_ordering
 class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
     __slots__ = (
-        "_fp", "executor", "__iterator_lock",
+        "_fp", "executor", "__iterator_lock", "__open_lock",
     ) + EventLoopMixin.__slots__
 
     _fp: Optional[IO[AnyStr]]
@@ -84,6 +84,7 @@ class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
         self._fp = None
         self.__open_args = (str(fname), mode, *args), kwargs
         self.__iterator_lock = asyncio.Lock()
+        self.__open_lock = asyncio.Lock()
 
     @classmethod
     def open_fp(
@@ -95,13 +96,14 @@ class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
         return async_fp
 
     async def open(self) -> None:
-        if self._fp is not None:
-            return
+        async with self.__open_lock:
+            if self._fp is not None:
+                return
 
-        args, kwargs = self.__open_args
-        self._fp = await self.__execute_in_thread(
-            self.get_opener(), *args, **kwargs,
-        )
+            args, kwargs = self.__open_args
+            self._fp = await self.__execute_in_thread(
+                self.get_opener(), *args, **kwargs,
+            )
 
     @property
     def fp(self) -> IO[AnyStr]:
-- 
2.43.0


From 459948b48db79ccfc33e278113b1eb00120b6b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:12 +0000
Subject: [PATCH 54/90] fix: text files which are not opened were not refused

---
 aiomisc/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/io.py b/aiomisc/io.py
index 6234388..3ad9835 100644
--- a/aiomisc/io.py
+++ b/aiomisc/io.py
@@ -245,7 +245,7 @@ class AsyncBinaryIO(AsyncFileIO[bytes]):
 class AsyncTextIO(AsyncFileIO[str]):
     @property
     def fp(self) -> TextIO:
-        return self._fp     # type: ignore
+        return super().fp   # type: ignore
 
     @property
     def newlines(self) -> Any:
-- 
2.43.0


From 6c3fd84cc51d2552c8241f98facda3cbf80f2d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:12 +0000
Subject: [PATCH 55/90] fix: discarding a file which is not opened raised
 RuntimeError

---
 aiomisc/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aiomisc/io.py b/aiomisc/io.py
index 3ad9835..a19a94b 100644
--- a/aiomisc/io.py
+++ b/aiomisc/io.py
@@ -79,9 +79,9 @@ class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
         executor: Optional[Executor] = None, *args: Any,
         loop: Optional[asyncio.AbstractEventLoop] = None, **kwargs: Any,
     ):
+        self._fp = None
         self.executor = executor
         self._loop = loop
-        self._fp = None
         self.__open_args = (str(fname), mode, *args), kwargs
         self.__iterator_lock = asyncio.Lock()
         self.__open_lock = asyncio.Lock()
@@ -134,10 +134,10 @@ class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
         )
 
     def __del__(self) -> None:
-        if not self.fp or self.fp.closed:
+        if self._fp is None or self._fp.closed:
             return
 
-        self.fp.close()
+        self._fp.close()
         del self._fp
 
     def __aiter__(self) -> "AsyncFileIO[AnyStr]":
-- 
2.43.0


From dee37a1df652d3c97e33d798bbc6dcfa6cc011c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:12 +0000
Subject: [PATCH 56/90] fix: some file operations did not use the executor of
 the file

---
 aiomisc/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aiomisc/io.py b/aiomisc/io.py
index a19a94b..b2a1180 100644
--- a/aiomisc/io.py
+++ b/aiomisc/io.py
@@ -129,8 +129,8 @@ class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
         if self.fp is None:
             raise RuntimeError("file is not opened")
 
-        await self.loop.run_in_executor(
-            None, self.fp.__exit__, exc_type, exc_val, exc_tb,
+        await self.__execute_in_thread(
+            self.fp.__exit__, exc_type, exc_val, exc_tb,
         )
 
     def __del__(self) -> None:
@@ -199,7 +199,7 @@ class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
         return method
 
     async def tell(self) -> int:
-        return self.fp.tell()
+        return await self.__execute_in_thread(self.fp.tell)
 
     async def readable(self) -> bool:
         return self.fp.readable()
-- 
2.43.0


From 87ce51662e66cc662a5a6f58ff553b78870c79d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:12 +0000
Subject: [PATCH 57/90] fix: keyword arguments of file operations were refused

---
 aiomisc/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aiomisc/io.py b/aiomisc/io.py
index b2a1180..a5f2c68 100644
--- a/aiomisc/io.py
+++ b/aiomisc/io.py
@@ -190,10 +190,12 @@ class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
         return await self.__execute_in_thread(self.fp.close)
 
     def __getattr__(self, name: str) -> Callable[..., Awaitable[Any]]:
-        async def method(*args: Any) -> Any:
+        async def method(*args: Any, **kwargs: Any) -> Any:
             getter = getattr(self.fp, name)
             if callable(getter):
-                return await self.__execute_in_thread(getter, *args)
+                return await self.__execute_in_thread(
+                    getter, *args, **kwargs,
+                )
             return getter
         method.__name__ = name
         return method
-- 
2.43.0


From 2891882e6da8ade01832d526d22fdd61538a9721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:12 +0000
Subject: [PATCH 58/90] fix: asynchronous files of different files were equal

---
 aiomisc/io.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/aiomisc/io.py b/aiomisc/io.py
index a5f2c68..852f0c4 100644
--- a/aiomisc/io.py
+++ b/aiomisc/io.py
@@ -153,11 +153,9 @@ class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
         return line
 
     def __eq__(self, other: Any) -> bool:
-        return (
-            self.__class__, self.fp.__eq__(other),
-        ) == (
-            other.__class__, self.fp.__eq__(other),
-        )
+        if self.__class__ is not other.__class__:
+            return False
+        return self.__open_args[0][0] == other.__open_args[0][0]
 
     def __lt__(self, other: Any) -> bool:
         return self.fp < other.fp
-- 
2.43.0


From b0fd8e2e5f4c98c6407fbf1bdc920a8e9f8fd751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:12 +0000
Subject: [PATCH 59/90] fix: a discarded buffer of a text file closed the file

---
 aiomisc/io.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/aiomisc/io.py b/aiomisc/io.py
index 852f0c4..6d0b299 100644
--- a/aiomisc/io.py
+++ b/aiomisc/io.py
@@ -243,6 +243,8 @@ class AsyncBinaryIO(AsyncFileIO[bytes]):
 
 
 class AsyncTextIO(AsyncFileIO[str]):
+    __buffer: Optional[AsyncBinaryIO] = None
+
     @property
     def fp(self) -> TextIO:
         return super().fp   # type: ignore
@@ -264,7 +266,12 @@ class AsyncTextIO(AsyncFileIO[str]):
         return self.fp.encoding
 
     def buffer(self) -> AsyncBinaryIO:
-        return AsyncBinaryIO.open_fp(self.fp.buffer)    # type: ignore
+        # the buffer should not be discarded, and hence closed, before the file
+        if self.__buffer is None:
+            self.__buffer = AsyncBinaryIO.open_fp(      # type: ignore
+                self.fp.buffer, executor=self.executor, loop=self._loop,
+            )
+        return self.__buffer    # type: ignore
 
 
 # Aliases
-- 
2.43.0


From 2b8d044aab01926f4f589c31518c8780ce6cc923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 60/90] fix: failing callbacks of Sentry events were called
 twice or ended workers

---
 aiomisc/service/raven.py | 55 ++++++++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 8 deletions(-)

diff --git a/aiomisc/service/raven.py b/aiomisc/service/raven.py
index 0e59c0e..3c42e00 100644
--- a/aiomisc/service/raven.py
+++ b/aiomisc/service/raven.py
@@ -58,6 +58,42 @@ POSSIBILITY OF SUCH DAMAGE.
 """
 
 
+class EventCallbacks:
+    """
+    Calls exactly one of the callbacks of an event, once
+    """
+
+    __slots__ = "_callbacks", "_loop"
+
+    def __init__(
+        self, loop: asyncio.AbstractEventLoop,
+        success_cb: Callable[[], Any], failure_cb: Callable[[Any], Any],
+    ):
+        self._loop = loop
+        self._callbacks: Optional[tuple] = (success_cb, failure_cb)
+
+    def _call(self, index: int, *args: Any) -> None:
+        if self._callbacks is None:
+            return
+
+        callback = self._callbacks[index]
+        self._callbacks = None
+
+        try:
+            callback(*args)
+        except Exception as exc:
+            self._loop.call_exception_handler({
+                "message": "Callback of Sentry event failed",
+                "exception": exc,
+            })
+
+    def success(self) -> None:
+        self._call(0)
+
+    def failure(self, exc: Any) -> None:
+        self._call(1, exc)
+
+
 class DummyTransport(Transport):         # type: ignore
     def send(self, url, data, headers):  # type: ignore
         pass
@@ -107,14 +143,14 @@ class AioHttpTransportBase(
         self, url: str, data: Any, headers: Mapping,
         callback: Callable[[], Any], errorback: Callable[[Any], Any],
     ) -> None:
-        if self.keepalive:
-            session = self._client_session
-        else:
-            session = self._client_session_factory()
-
-        resp = None
+        resp = session = None
 
         try:
+            if self.keepalive:
+                session = self._client_session
+            else:
+                session = self._client_session_factory()
+
             resp = await session.post(
                 url, data=data, compress=False,
                 headers=headers, timeout=self.timeout,
@@ -141,7 +177,7 @@ class AioHttpTransportBase(
         finally:
             if resp is not None:
                 resp.release()
-            if not self.keepalive:
+            if session is not None and not self.keepalive:
                 await session.close()
 
     @abc.abstractmethod
@@ -163,8 +199,11 @@ class AioHttpTransportBase(
             failure_cb(RuntimeError(f"{self.__class__.__name__} is closed"))
             return
 
+        callbacks = EventCallbacks(self._loop, success_cb, failure_cb)
+
         self._loop.call_soon_threadsafe(
-            self._async_send, url, data, headers, success_cb, failure_cb,
+            self._async_send, url, data, headers,
+            callbacks.success, callbacks.failure,
         )
 
     async def _close_coro(
-- 
2.43.0


From 082685f2c9c305818599df4d8a3565b55dd8e533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 61/90] fix: Sentry events not sent before the close timed out
 were not reported

---
 aiomisc/service/raven.py | 47 ++++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/aiomisc/service/raven.py b/aiomisc/service/raven.py
index 3c42e00..38cc84e 100644
--- a/aiomisc/service/raven.py
+++ b/aiomisc/service/raven.py
@@ -18,7 +18,7 @@ from raven.transport.base import AsyncTransport  # type: ignore
 from raven.transport.http import HTTPTransport  # type: ignore
 
 from aiomisc.service import Service
-from aiomisc.utils import TimeoutType
+from aiomisc.utils import TimeoutType, cancel_tasks
 
 
 log = logging.getLogger(__name__)
@@ -191,6 +191,15 @@ class AioHttpTransportBase(
     async def _close(self) -> None:  # pragma: no cover
         pass
 
+    @abc.abstractmethod
+    async def _abort(self) -> None:  # pragma: no cover
+        """ Ends everything what has not been ended by ``_close`` """
+
+    def _not_sent(self) -> RuntimeError:
+        return RuntimeError(
+            f"{self.__class__.__name__} was closed before sending",
+        )
+
     def async_send(
         self, url: str, data: Any, headers: Mapping,
         success_cb: Callable[[], Any], failure_cb: Callable[[Any], Any],
@@ -218,6 +227,7 @@ class AioHttpTransportBase(
         except asyncio.TimeoutError:
             pass
         finally:
+            await self._abort()
             if self.keepalive:
                 await self._client_session.close()
 
@@ -248,7 +258,13 @@ class AioHttpTransport(AioHttpTransportBase):
 
         task = self._loop.create_task(coro)
         self._tasks.add(task)
-        task.add_done_callback(self._tasks.discard)
+
+        def on_done(task: asyncio.Task) -> None:
+            self._tasks.discard(task)
+            # has no effect when the event has been reported already
+            failure_cb(self._not_sent())
+
+        task.add_done_callback(on_done)
 
     async def _close(self) -> None:
         await asyncio.gather(
@@ -256,7 +272,8 @@ class AioHttpTransport(AioHttpTransportBase):
             return_exceptions=True,
         )
 
-        assert len(self._tasks) == 0
+    async def _abort(self) -> None:
+        await cancel_tasks(self._tasks)
 
 
 class QueuedAioHttpTransport(AioHttpTransportBase):
@@ -286,9 +303,13 @@ class QueuedAioHttpTransport(AioHttpTransportBase):
 
                 url, data, headers, success_cb, failure_cb = data
 
-                await self._do_send(
-                    url, data, headers, success_cb, failure_cb,
-                )
+                try:
+                    await self._do_send(
+                        url, data, headers, success_cb, failure_cb,
+                    )
+                finally:
+                    # has no effect when the event has been reported already
+                    failure_cb(self._not_sent())
             finally:
                 self._queue.task_done()
 
@@ -332,13 +353,17 @@ class QueuedAioHttpTransport(AioHttpTransportBase):
             return_exceptions=True,
         )
 
-        assert len(self._workers) == 0
-        assert self._queue.qsize() == 1
-        try:
-            assert self._queue.get_nowait() is ...
-        finally:
+    async def _abort(self) -> None:
+        await cancel_tasks(self._workers)
+
+        while not self._queue.empty():
+            data = self._queue.get_nowait()
             self._queue.task_done()
 
+            if data is not ...:
+                *_, failure_cb = data
+                failure_cb(self._not_sent())
+
 
 class QueuedKeepaliveAioHttpTransport(QueuedAioHttpTransport):
     DNS_CACHE_TTL = 600
-- 
2.43.0


From 316fd6940e1995f48fec930f762ca24e9bc88bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 62/90] fix: Sentry events coming when the close began were
 lost or blocked it

---
 aiomisc/service/raven.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/aiomisc/service/raven.py b/aiomisc/service/raven.py
index 38cc84e..456fe3e 100644
--- a/aiomisc/service/raven.py
+++ b/aiomisc/service/raven.py
@@ -122,6 +122,7 @@ class AioHttpTransportBase(
             self._client_session = self._client_session_factory()
 
         self._closing = False
+        self._closed = False
 
     @property
     def keepalive(self) -> bool:
@@ -211,15 +212,26 @@ class AioHttpTransportBase(
         callbacks = EventCallbacks(self._loop, success_cb, failure_cb)
 
         self._loop.call_soon_threadsafe(
-            self._async_send, url, data, headers,
+            self._accept, url, data, headers,
             callbacks.success, callbacks.failure,
         )
 
+    def _accept(
+        self, url: str, data: Any, headers: Mapping,
+        success_cb: Callable[[], Any], failure_cb: Callable[[Any], Any],
+    ) -> None:
+        if self._closed:
+            failure_cb(RuntimeError(f"{self.__class__.__name__} is closed"))
+            return
+
+        self._async_send(url, data, headers, success_cb, failure_cb)
+
     async def _close_coro(
         self,
         *,
         timeout: Optional[TimeoutType] = None,
     ) -> None:
+        self._closed = True
         try:
             await asyncio.wait_for(
                 self._close(), timeout=timeout,
-- 
2.43.0


From 391ce331dbca3237db4c1aa9bcc7d0fe8f7da999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 63/90] fix: connections to Sentry were kept when the close
 timed out

---
 aiomisc/service/raven.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiomisc/service/raven.py b/aiomisc/service/raven.py
index 456fe3e..de52f09 100644
--- a/aiomisc/service/raven.py
+++ b/aiomisc/service/raven.py
@@ -418,8 +418,8 @@ class QueuedKeepaliveAioHttpTransport(QueuedAioHttpTransport):
             connector_owner=False,
         )
 
-    async def _close(self) -> None:
-        await super()._close()
+    async def _abort(self) -> None:
+        await super()._abort()
         await self.connector.close()
 
 
-- 
2.43.0


From 167bc25de092cea1adfa6b7b717c8da07b6c014c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 64/90] fix: Sentry handlers were kept in the root logger after
 the stop

---
 aiomisc/service/raven.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aiomisc/service/raven.py b/aiomisc/service/raven.py
index de52f09..65748b7 100644
--- a/aiomisc/service/raven.py
+++ b/aiomisc/service/raven.py
@@ -455,8 +455,11 @@ class RavenSender(Service):
             handler.addFilter(fltr)
 
         logging.getLogger().handlers.append(handler)
+        self._handler = handler
 
     async def stop(self, *_: Any) -> None:
+        logging.getLogger().removeHandler(self._handler)
+
         transport = self.client.remote.get_transport()
         self.client.set_dsn("", transport=DummyTransport)
 
-- 
2.43.0


From 40a5c4a9561850a54bdc18155cd72d002dbbf6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:39 +0000
Subject: [PATCH 65/90] fix: restored (unpickled, copied) services have no
 context

---
 aiomisc/service/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aiomisc/service/base.py b/aiomisc/service/base.py
index 3da7797..7fcc2a0 100644
--- a/aiomisc/service/base.py
+++ b/aiomisc/service/base.py
@@ -48,6 +48,10 @@ class Service(metaclass=ServiceMeta):
 
     _instance_params: Dict[str, Any]
 
+    # __init__ is not called when a service is being unpickled or copied
+    __context: Optional[Context] = None
+    __start_event: Optional[asyncio.Event] = None
+
     def __new__(cls, *args: Any, **kwargs: Any) -> "Service":
         instance = super().__new__(cls)
         instance._instance_params = {}
@@ -59,8 +63,6 @@ class Service(metaclass=ServiceMeta):
             raise AttributeError("Absent attributes", lost_kw)
 
         self._set_params(**kwargs)
-        self.__context: Optional[Context] = None
-        self.__start_event: Optional[asyncio.Event] = None
 
     def __getattr__(self, key: str) -> Any:
         try:
-- 
2.43.0


From 726bc4df54e0e202351866fd658d132e67010ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:30 +0000
Subject: [PATCH 66/90] fix: post_start receivers were called although a
 service had failed to start

---
 aiomisc/entrypoint.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/aiomisc/entrypoint.py b/aiomisc/entrypoint.py
index 0fd72f3..20fb618 100644
--- a/aiomisc/entrypoint.py
+++ b/aiomisc/entrypoint.py
@@ -367,10 +367,8 @@ class Entrypoint:
 
     async def start_services(self, *svc: Service) -> None:
         await self.pre_start.call(entrypoint=self, services=svc)
-        try:
-            await asyncio.gather(*[self._start_service(s) for s in svc])
-        finally:
-            await self.post_start.call(entrypoint=self, services=svc)
+        await asyncio.gather(*[self._start_service(s) for s in svc])
+        await self.post_start.call(entrypoint=self, services=svc)
 
     async def stop_services(
         self, *svc: Service, exc: Optional[Exception] = None,
-- 
2.43.0


From ca83a6b7a91da5a56f396fd60296da54a5a2acab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:08 +0000
Subject: [PATCH 67/90] fix: empty NOTIFY_SOCKET made creating the watchdog
 service fail

---
 aiomisc/service/sdwatchdog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/service/sdwatchdog.py b/aiomisc/service/sdwatchdog.py
index 5e7e533..b18c715 100644
--- a/aiomisc/service/sdwatchdog.py
+++ b/aiomisc/service/sdwatchdog.py
@@ -22,7 +22,7 @@ def _get_watchdog_interval() -> Optional[TimeoutType]:
 
 def _get_socket_addr() -> Optional[str]:
     addr = os.getenv("NOTIFY_SOCKET")
-    if addr is None:
+    if not addr:
         return None
     if addr[0] == "@":
         addr = "\0" + addr[1:]
-- 
2.43.0


From 31cd2c5459e0d4fdd5c233da4f6699a329cb28f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:08 +0000
Subject: [PATCH 68/90] fix: unavailable notify socket of systemd made the
 start fail

---
 aiomisc/service/sdwatchdog.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/aiomisc/service/sdwatchdog.py b/aiomisc/service/sdwatchdog.py
index b18c715..1fb1bcf 100644
--- a/aiomisc/service/sdwatchdog.py
+++ b/aiomisc/service/sdwatchdog.py
@@ -70,9 +70,17 @@ class SDWatchdogService(Service):
         if self.socket_addr is None:
             return False
 
-        self.socket = socket.socket(socket.AF_UNIX, socket.SOCK_DGRAM)
-        self.socket.connect(self.socket_addr)
-        self.socket.setblocking(False)
+        sock = socket.socket(socket.AF_UNIX, socket.SOCK_DGRAM)
+
+        try:
+            sock.connect(self.socket_addr)
+        except OSError as e:
+            sock.close()
+            log.warning("SystemD notify socket is not available: %r", e)
+            return False
+
+        sock.setblocking(False)
+        self.socket = sock
         return True
 
     @threaded
-- 
2.43.0


From e47b82f0a65ad601aa0d6abf51e8801718ee8809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:13 +0000
Subject: [PATCH 69/90] fix: process services could not start when logging was
 not configured

---
 aiomisc/service/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/service/process.py b/aiomisc/service/process.py
index 8313aee..23e302a 100644
--- a/aiomisc/service/process.py
+++ b/aiomisc/service/process.py
@@ -68,7 +68,7 @@ class ProcessService(Service):
             log_format = (
                 LogFormat.default()
                 if LOG_FORMAT is None
-                else LOG_FORMAT.get().value
+                else LOG_FORMAT.get()
             )
 
             process = Process(
-- 
2.43.0


From 0bb7ba2fc9e2d1eb0138b3755b7ed9c43231020c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:19 +0000
Subject: [PATCH 70/90] fix: processes which did not exit after their function
 survived the stop

---
 aiomisc/service/process.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/aiomisc/service/process.py b/aiomisc/service/process.py
index 23e302a..873beab 100644
--- a/aiomisc/service/process.py
+++ b/aiomisc/service/process.py
@@ -110,23 +110,26 @@ class ProcessService(Service):
         if not process.pid:
             return
 
-        os.kill(process.pid, signal.SIGINT)
-        stop_result: bool = await self.loop.run_in_executor(
-            None, self._process_stop_event.wait, self.process_stop_timeout,
-        )
-
-        if stop_result:
-            await self.loop.run_in_executor(
-                None, process.join, self.process_stop_timeout,
+        try:
+            os.kill(process.pid, signal.SIGINT)
+            stop_result: bool = await self.loop.run_in_executor(
+                None, self._process_stop_event.wait, self.process_stop_timeout,
             )
 
-        if not stop_result and process.is_alive():
-            process.kill()
-            log.warning(
-                f"The process {process.pid} didn't stop for "
-                f"{self.process_stop_timeout} seconds "
-                "and had been killed.",
-            )
+            if stop_result:
+                await self.loop.run_in_executor(
+                    None, process.join, self.process_stop_timeout,
+                )
+        finally:
+            # it might not exit after the stop event, or
+            # the waiting has been cancelled
+            if process.is_alive():
+                process.kill()
+                log.warning(
+                    f"The process {process.pid} didn't stop for "
+                    f"{self.process_stop_timeout} seconds "
+                    "and had been killed.",
+                )
 
 
 class RespawningProcessService(ProcessService, ABC):
-- 
2.43.0


From 4f1be5fd722e42f2e716f9966b87789e729b0982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:57 +0000
Subject: [PATCH 71/90] fix: interrupted start of a process service leaked the
 process or blocked the loop, one which died while starting hung it

---
 aiomisc/service/process.py | 73 +++++++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 29 deletions(-)

diff --git a/aiomisc/service/process.py b/aiomisc/service/process.py
index 873beab..1119a35 100644
--- a/aiomisc/service/process.py
+++ b/aiomisc/service/process.py
@@ -13,6 +13,8 @@ from aiomisc_log import LOG_FORMAT, LOG_LEVEL, LogFormat, basic_config
 
 log = logging.getLogger(__name__)
 
+START_POLL_TIMEOUT = 1
+
 
 def _process_inner(
     function: Callable[..., Any],
@@ -47,49 +49,62 @@ class ProcessService(Service):
         pass
 
     def _is_alive(self) -> bool:
+        if not hasattr(self, "process"):
+            return False
         with self._lock:
-            if not hasattr(self, "process"):
-                return False
             if not self.process.pid:
                 return False
             return self.process.is_alive()
 
+    def _wait_started(
+        self, process: Process, start_event: synchronize.Event,
+    ) -> bool:
+        while not start_event.wait(START_POLL_TIMEOUT):
+            with self._lock:
+                if not process.is_alive():
+                    return start_event.is_set()
+        return True
+
     async def start(self) -> Any:
         self._lock = Lock()
         self._process_start_event = Event()
         self._process_stop_event = Event()
 
-        with self._lock:
-            log_level = (
-                log.getEffectiveLevel()
-                if LOG_LEVEL is None
-                else LOG_LEVEL.get()
-            )
-            log_format = (
-                LogFormat.default()
-                if LOG_FORMAT is None
-                else LOG_FORMAT.get()
-            )
+        log_level = (
+            log.getEffectiveLevel()
+            if LOG_LEVEL is None
+            else LOG_LEVEL.get()
+        )
+        log_format = (
+            LogFormat.default()
+            if LOG_FORMAT is None
+            else LOG_FORMAT.get()
+        )
 
-            process = Process(
-                target=_process_inner,
-                args=(
-                    self.in_process,
-                    log_level,
-                    log_format,
-                    self._process_start_event,
-                    self._process_stop_event,
-                ),
-                kwargs=self.get_process_kwargs(),
-                name=self.name,
-            )
+        process = Process(
+            target=_process_inner,
+            args=(
+                self.in_process,
+                log_level,
+                log_format,
+                self._process_start_event,
+                self._process_stop_event,
+            ),
+            kwargs=self.get_process_kwargs(),
+            name=self.name,
+        )
 
-            process.start()
+        process.start()
+        # it must be stopped when the waiting has been cancelled
+        self.process = process
 
-            await self.loop.run_in_executor(
-                None, self._process_start_event.wait,
+        started = await self.loop.run_in_executor(
+            None, self._wait_started, process, self._process_start_event,
+        )
+        if not started:
+            raise RuntimeError(
+                f"Process of {self!r} exited before it had been started",
             )
-            self.process = process
 
     def __repr__(self) -> str:
         pid: Optional[int] = None
-- 
2.43.0


From 8787b1090ebd7e05ce8a78140da57bbee7f5210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:57 +0000
Subject: [PATCH 72/90] fix: respawning process services did not stop when
 their start had been interrupted

---
 aiomisc/service/process.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aiomisc/service/process.py b/aiomisc/service/process.py
index 1119a35..c00bf6e 100644
--- a/aiomisc/service/process.py
+++ b/aiomisc/service/process.py
@@ -166,15 +166,17 @@ class RespawningProcessService(ProcessService, ABC):
         await super().start()
 
     async def start(self) -> None:
-        await super().start()
         self._supervisor = PeriodicCallback(self.__supervise)
+        await super().start()
         self._supervisor.start(
             self.process_poll_timeout,
         )
 
     async def stop(self, exception: Optional[Exception] = None) -> Any:
-        await self._supervisor.stop(return_exceptions=True)
-        await super().stop(exception)
+        try:
+            await self._supervisor.stop(return_exceptions=True)
+        finally:
+            await super().stop(exception)
 
 
 __all__ = ("ProcessService", "RespawningProcessService")
-- 
2.43.0


From 440c88107f0ca4516e5420e26afab5d7ec70767d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:06 +0000
Subject: [PATCH 73/90] fix: robust clients gave up when the first connection
 failed, reported being connected while they were not and swallowed
 cancellations

---
 aiomisc/service/tcp.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/aiomisc/service/tcp.py b/aiomisc/service/tcp.py
index 9d3d5dc..c0aee02 100644
--- a/aiomisc/service/tcp.py
+++ b/aiomisc/service/tcp.py
@@ -176,17 +176,18 @@ class RobustTCPClient(TCPClient, ABC):
                 if not self.start_event.is_set():
                     self.start_event.set()
 
-                await self.create_task(self.handle_connection(reader, writer))
-                self.connected.clear()
-            except asyncio.CancelledError:
-                raise
+                try:
+                    await self.create_task(
+                        self.handle_connection(reader, writer),
+                    )
+                    return
+                finally:
+                    self.connected.clear()
             except Exception:
                 log.exception(
                     "Error when handle TCP connection, "
                     "reconnecting after %.3f seconds",
                     self.reconnect_timeout,
                 )
-            finally:
-                if not self.connected.is_set():
-                    return
-                await asyncio.sleep(self.reconnect_timeout)
+
+            await asyncio.sleep(self.reconnect_timeout)
-- 
2.43.0


From 1754cfacab4e0f5de67a444eb23bfac20276a5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:06 +0000
Subject: [PATCH 74/90] fix: clients stopped while connecting or reconnecting
 connected afterwards

---
 aiomisc/service/tcp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aiomisc/service/tcp.py b/aiomisc/service/tcp.py
index c0aee02..ee5f926 100644
--- a/aiomisc/service/tcp.py
+++ b/aiomisc/service/tcp.py
@@ -151,6 +151,10 @@ class TCPClient(SimpleClient, ABC):
         raise NotImplementedError
 
     async def start(self) -> None:
+        # As a task, for the stop method to be able to cancel it
+        await self.create_task(self._communicate())
+
+    async def _communicate(self) -> None:
         reader, writer = await self.connect()
         self.loop.call_soon(self.start_event.set)
         try:
@@ -167,7 +171,9 @@ class RobustTCPClient(TCPClient, ABC):
 
     async def start(self) -> None:
         self.connected = asyncio.Event()
+        await super().start()
 
+    async def _communicate(self) -> None:
         while True:
             try:
                 reader, writer = await self.connect()
-- 
2.43.0


From 025ce7926e234d4b8dcd3e2ff1e75fe958730dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:32 +0000
Subject: [PATCH 75/90] fix: clients leaked the connection when their handler
 failed or was cancelled

---
 aiomisc/service/tcp.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/aiomisc/service/tcp.py b/aiomisc/service/tcp.py
index ee5f926..9bfe6e9 100644
--- a/aiomisc/service/tcp.py
+++ b/aiomisc/service/tcp.py
@@ -150,6 +150,16 @@ class TCPClient(SimpleClient, ABC):
     ) -> None:
         raise NotImplementedError
 
+    async def _handle_connection(
+        self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter,
+    ) -> None:
+        try:
+            await self.create_task(self.handle_connection(reader, writer))
+        except BaseException:
+            # Nobody else is going to do this
+            writer.close()
+            raise
+
     async def start(self) -> None:
         # As a task, for the stop method to be able to cancel it
         await self.create_task(self._communicate())
@@ -158,7 +168,7 @@ class TCPClient(SimpleClient, ABC):
         reader, writer = await self.connect()
         self.loop.call_soon(self.start_event.set)
         try:
-            await self.create_task(self.handle_connection(reader, writer))
+            await self._handle_connection(reader, writer)
         except Exception:
             log.exception("Error when handle TCP connection")
         else:
@@ -183,9 +193,7 @@ class RobustTCPClient(TCPClient, ABC):
                     self.start_event.set()
 
                 try:
-                    await self.create_task(
-                        self.handle_connection(reader, writer),
-                    )
+                    await self._handle_connection(reader, writer)
                     return
                 finally:
                     self.connected.clear()
-- 
2.43.0


From ded8b43206d3dabe4c1a1cec1ae4113754594b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:23 +0000
Subject: [PATCH 76/90] fix: workers exited when the function raised a
 connection error or an exception which can't be pickled

---
 aiomisc_worker/worker.py | 45 ++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/aiomisc_worker/worker.py b/aiomisc_worker/worker.py
index beeb7ea..3134dd6 100644
--- a/aiomisc_worker/worker.py
+++ b/aiomisc_worker/worker.py
@@ -6,6 +6,7 @@ import os
 import signal
 import socket
 import sys
+import traceback
 from types import TracebackType
 from typing import Any, Optional, Type
 
@@ -13,6 +14,25 @@ from . import SIGNAL, AddressType, PacketTypes
 from .protocol import ADDRESS_FAMILY, SocketIOProtocol
 
 
+def send_reply(
+    protocol: SocketIOProtocol, packet_type: PacketTypes, payload: Any,
+) -> None:
+    try:
+        protocol.send((packet_type, payload))
+    except OSError:
+        raise
+    except Exception as e:
+        # Nothing was sent since the payload can't be pickled
+        logging.exception("Unable to send the reply")
+        if packet_type == PacketTypes.EXCEPTION:
+            e = RuntimeError(
+                "Exception can't be pickled: " + "".join(
+                    traceback.format_exception_only(type(payload), payload),
+                ),
+            )
+        send_reply(protocol, PacketTypes.EXCEPTION, e)
+
+
 def execute(protocol: SocketIOProtocol) -> None:
     pid = os.getpid()
     try:
@@ -27,29 +47,24 @@ def execute(protocol: SocketIOProtocol) -> None:
         raise RuntimeError("Unexpected request")
 
     try:
-        protocol.send((
-            PacketTypes.RESULT,
-            func(*args, **kwargs),
-        ))
+        packet_type, payload = PacketTypes.RESULT, func(*args, **kwargs)
     except asyncio.CancelledError:
         logging.exception(
             "Request cancelled for %r", func, extra={"pid": pid},
         )
-        protocol.send((
-            PacketTypes.CANCELLED,
-            asyncio.CancelledError,
-        ))
-    except (ConnectionError, ConnectionResetError):
+        packet_type, payload = PacketTypes.CANCELLED, asyncio.CancelledError
+    except Exception as e:
+        logging.exception("Exception when processing request")
+        packet_type, payload = PacketTypes.EXCEPTION, e
+
+    try:
+        send_reply(protocol, packet_type, payload)
+    except ConnectionError:
         logging.warning(
             "IPC connection error, worker PID: %d exiting.", pid,
             extra={"pid": pid},
         )
         raise
-    except Exception as e:
-        logging.exception("Exception when processing request")
-        protocol.send((
-            PacketTypes.EXCEPTION, e,
-        ))
 
 
 def on_cancel_signal(*_: Any) -> None:
@@ -114,4 +129,4 @@ def bad_initializer(
             hmac.HMAC(cookie, worker_id, digestmod=hashlib.sha256).digest(),
             os.getpid(),
         ))
-        proto.send((PacketTypes.EXCEPTION, exc))
+        send_reply(proto, PacketTypes.EXCEPTION, exc)
-- 
2.43.0


From e75fcebdd9d662fe9680263a2f99962a66ce4307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:23 +0000
Subject: [PATCH 77/90] fix: workers whose function called exit were not
 started again

---
 aiomisc_worker/worker.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aiomisc_worker/worker.py b/aiomisc_worker/worker.py
index 3134dd6..938d56c 100644
--- a/aiomisc_worker/worker.py
+++ b/aiomisc_worker/worker.py
@@ -53,6 +53,10 @@ def execute(protocol: SocketIOProtocol) -> None:
             "Request cancelled for %r", func, extra={"pid": pid},
         )
         packet_type, payload = PacketTypes.CANCELLED, asyncio.CancelledError
+    except SystemExit as e:
+        # Zero means the connection has been closed,
+        # and such workers will not be started again
+        raise SystemExit(e.code or 1)
     except Exception as e:
         logging.exception("Exception when processing request")
         packet_type, payload = PacketTypes.EXCEPTION, e
-- 
2.43.0


From 366ffa04ae8d632ea3265b6b15e6e34f47203f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:57 +0000
Subject: [PATCH 78/90] fix: cancelling a task when its worker was already
 replying corrupted or doubled the reply, or restarted the worker

---
 aiomisc_worker/worker.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/aiomisc_worker/worker.py b/aiomisc_worker/worker.py
index 938d56c..84112e9 100644
--- a/aiomisc_worker/worker.py
+++ b/aiomisc_worker/worker.py
@@ -3,6 +3,7 @@ import hashlib
 import hmac
 import logging
 import os
+import select
 import signal
 import socket
 import sys
@@ -14,6 +15,10 @@ from . import SIGNAL, AddressType, PacketTypes
 from .protocol import ADDRESS_FAMILY, SocketIOProtocol
 
 
+# Set after the function has been finished until the next request arrives
+REPLYING: Optional[socket.socket] = None
+
+
 def send_reply(
     protocol: SocketIOProtocol, packet_type: PacketTypes, payload: Any,
 ) -> None:
@@ -34,6 +39,12 @@ def send_reply(
 
 
 def execute(protocol: SocketIOProtocol) -> None:
+    global REPLYING
+
+    if REPLYING is not None:
+        select.select([REPLYING], [], [])
+        REPLYING = None
+
     pid = os.getpid()
     try:
         packet_type, func, args, kwargs = protocol.receive()
@@ -47,7 +58,10 @@ def execute(protocol: SocketIOProtocol) -> None:
         raise RuntimeError("Unexpected request")
 
     try:
-        packet_type, payload = PacketTypes.RESULT, func(*args, **kwargs)
+        try:
+            packet_type, payload = PacketTypes.RESULT, func(*args, **kwargs)
+        finally:
+            REPLYING = protocol.sock
     except asyncio.CancelledError:
         logging.exception(
             "Request cancelled for %r", func, extra={"pid": pid},
@@ -72,6 +86,9 @@ def execute(protocol: SocketIOProtocol) -> None:
 
 
 def on_cancel_signal(*_: Any) -> None:
+    if REPLYING is not None and not select.select([REPLYING], [], [], 0)[0]:
+        # Too late, exactly one reply should be sent
+        return
     raise asyncio.CancelledError
 
 
-- 
2.43.0


From 3b9aeca5cd19fabeff7858a50d64f56b58bc0d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:14 +0000
Subject: [PATCH 79/90] fix: requests which can't be unpickled by the worker
 ended it

---
 aiomisc_worker/worker.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aiomisc_worker/worker.py b/aiomisc_worker/worker.py
index 84112e9..732fc7b 100644
--- a/aiomisc_worker/worker.py
+++ b/aiomisc_worker/worker.py
@@ -51,8 +51,14 @@ def execute(protocol: SocketIOProtocol) -> None:
         logging.debug(
             "Worker PID: %d got task %r", pid, func, extra={"pid": pid},
         )
-    except ConnectionError:
+    except OSError:
         raise
+    except Exception as e:
+        # It has been received completely but can't be unpickled
+        logging.exception("Unable to load the request")
+        REPLYING = protocol.sock
+        send_reply(protocol, PacketTypes.EXCEPTION, e)
+        return
 
     if packet_type != packet_type.REQUEST:
         raise RuntimeError("Unexpected request")
-- 
2.43.0


From b876edc06496e8bc212bbb705165c2a2c5a9f758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:11 +0000
Subject: [PATCH 80/90] fix: the supervisor could terminate a foreign process
 with the id of a worker which had exited

---
 aiomisc_worker/forking.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aiomisc_worker/forking.py b/aiomisc_worker/forking.py
index 5999d40..89a23fc 100644
--- a/aiomisc_worker/forking.py
+++ b/aiomisc_worker/forking.py
@@ -111,10 +111,9 @@ def main() -> int:
         log_func = log.debug if status == 0 else log.warning
         log_func("Worker PID: %d exited with status %d", pid, status)
 
-        if status == 0:
-            continue
+        # The PID might be reused by a foreign process from now on
         worker_id = PROCESSES.pop(pid, None)
-        if worker_id is None:
+        if status == 0 or worker_id is None:
             continue
         fork(worker_id, cookie, address)
     return 0
-- 
2.43.0


From e1972abb1b1841bfb0639a7d99901ba2701e3cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:07 +0000
Subject: [PATCH 81/90] fix: the level of the wrapped log handler was ignored

---
 aiomisc/log.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aiomisc/log.py b/aiomisc/log.py
index 545b97c..885187b 100644
--- a/aiomisc/log.py
+++ b/aiomisc/log.py
@@ -86,6 +86,8 @@ class ThreadedHandler(logging.Handler):
                     record = self._queue.get(
                         timeout=0 if closed else self._flush_interval,
                     )
+                    if record.levelno < self._target.level:
+                        continue
                     with suppress(Exception):
                         self._target.handle(record)
             except Empty:
-- 
2.43.0


From 934ae5f4fb36539fc250899179552ff7c056ace0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:07 +0000
Subject: [PATCH 82/90] fix: errors of the loop about cancelled or pending
 futures or with some context keys were not logged by the hook

---
 aiomisc/log.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/aiomisc/log.py b/aiomisc/log.py
index 885187b..29b0a05 100644
--- a/aiomisc/log.py
+++ b/aiomisc/log.py
@@ -4,6 +4,7 @@ import threading
 import traceback
 import warnings
 from contextlib import suppress
+from itertools import chain
 from queue import Empty, Full, Queue
 from socket import socket
 from typing import (
@@ -121,6 +122,11 @@ def wrap_logging_handler(
     return handler
 
 
+RECORD_ATTRIBUTES = frozenset(
+    chain(vars(logging.makeLogRecord({})), ("message", "asctime")),
+)
+
+
 class UnhandledLoopHook(aiomisc_log.UnhandledHook):
     @staticmethod
     def _fill_transport_extra(
@@ -158,12 +164,18 @@ class UnhandledLoopHook(aiomisc_log.UnhandledHook):
         )
 
         if exception is None:
-            if future is not None:
-                exception = future.exception()
-            elif task is not None and task.done():
-                exception = task.exception()
-
-        extra = context
+            failed = task if future is None else future
+            if (
+                failed is not None and
+                failed.done() and not failed.cancelled()
+            ):
+                exception = failed.exception()
+
+        # Attributes of the log record must not be overwritten
+        extra = {
+            f"context_{key}" if key in RECORD_ATTRIBUTES else key: value
+            for key, value in context.items()
+        }
         if handle is not None:
             extra["handle"] = repr(handle)
         if protocol is not None:
-- 
2.43.0


From 65658371c3f76d4831d8453913071aa38d19f133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:45 +0000
Subject: [PATCH 83/90] fix: the memory tracer went on reporting, and failing,
 after it was stopped

---
 aiomisc/service/tracer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aiomisc/service/tracer.py b/aiomisc/service/tracer.py
index 5260ebe..a0861df 100644
--- a/aiomisc/service/tracer.py
+++ b/aiomisc/service/tracer.py
@@ -98,4 +98,5 @@ class MemoryTracer(Service):
         return self.log_diff(differences)
 
     async def stop(self, exception: Optional[Exception] = None) -> None:
+        await self._tracer.stop(return_exceptions=True)
         tracemalloc.stop()
-- 
2.43.0


From 34c0563d6b2003f1cf4a1485cf68e6bd944f6ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:16 +0000
Subject: [PATCH 84/90] fix: stopping an aiohttp service whose start has failed
 raised AttributeError

---
 aiomisc/service/aiohttp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiomisc/service/aiohttp.py b/aiomisc/service/aiohttp.py
index daf1266..a62bd6e 100644
--- a/aiomisc/service/aiohttp.py
+++ b/aiomisc/service/aiohttp.py
@@ -96,7 +96,8 @@ class AIOHTTPService(Service):
 
     async def stop(self, exception: Optional[Exception] = None) -> None:
         try:
-            if self.site:
+            # absent when the start has failed
+            if getattr(self, "site", None):
                 await self.site.stop()
         finally:
             if hasattr(self, "runner"):
-- 
2.43.0


From 5f334ebba282d818e4f8f693a5be561d828fbfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:16 +0000
Subject: [PATCH 85/90] fix: an uvicorn service stopped early went on listening
 or raised AttributeError

---
 aiomisc/service/uvicorn.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/aiomisc/service/uvicorn.py b/aiomisc/service/uvicorn.py
index 0b5ebc5..87817f9 100644
--- a/aiomisc/service/uvicorn.py
+++ b/aiomisc/service/uvicorn.py
@@ -121,5 +121,14 @@ class UvicornService(Service, abc.ABC):
         )
 
     async def stop(self, exception: Optional[Exception] = None) -> None:
+        if not hasattr(self, "server"):
+            # The start has failed
+            return
+
+        # A server which is told to exit while it is starting up
+        # goes on listening
+        while not (self.server.started or self.serve_task.done()):
+            await asyncio.sleep(0.1)
+
         self.server.should_exit = True
         await self.serve_task
-- 
2.43.0


From 8337ea355275f80e1cf7945c9ff249c994c50e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:16 +0000
Subject: [PATCH 86/90] fix: a cancelled or unavailable port broke the start or
 the other waiters of a gRPC service

---
 aiomisc/service/grpc_server.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/aiomisc/service/grpc_server.py b/aiomisc/service/grpc_server.py
index 72ebcf2..154b769 100644
--- a/aiomisc/service/grpc_server.py
+++ b/aiomisc/service/grpc_server.py
@@ -77,19 +77,32 @@ class GRPCService(Service):
 
         log.info("%s: grpc://%s:%s", msg, address, bind_port)
 
-    async def start(self) -> None:
-        self._server = grpc.aio.server(**self._server_args)
-
+    def _listen(self) -> None:
         for address, future in self._insecure_ports:
             port = self._server.add_insecure_port(address)
-            future.set_result(port)
+            # might be cancelled by the one who was waiting for it
+            if not future.done():
+                future.set_result(port)
             self._log_port("Listening insecure address", address, port)
 
         for address, credentials, future in self._secure_ports:
             port = self._server.add_secure_port(address, credentials)
-            future.set_result(port)
+            if not future.done():
+                future.set_result(port)
             self._log_port("Listening secure address", address, port)
 
+    async def start(self) -> None:
+        self._server = grpc.aio.server(**self._server_args)
+
+        try:
+            self._listen()
+        except Exception as e:
+            # Nobody should wait for the ports forever
+            for *_, future in (*self._insecure_ports, *self._secure_ports):
+                if not future.done():
+                    future.set_exception(e)
+            raise
+
         if self._reflection:
             service_names = [x.service_name() for x in self._services]
             service_names.append(reflection.SERVICE_NAME)
-- 
2.43.0


From 9222aa8fa4e78c13fce165ed6272fd309b363930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:00 +0000
Subject: [PATCH 87/90] fix: count cancelled calls of the process pool as done

---
 aiomisc/process_pool.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aiomisc/process_pool.py b/aiomisc/process_pool.py
index 32b6ca4..89b3251 100644
--- a/aiomisc/process_pool.py
+++ b/aiomisc/process_pool.py
@@ -84,7 +84,10 @@ class ProcessPoolExecutor(ProcessPoolExecutorBase, EventLoopMixin):
         """
         Callback for statistic
         """
-        if future.exception():
+        if future.cancelled():
+            # neither failed nor succeeded, asking for its exception raises
+            pass
+        elif future.exception():
             self._statistic.error += 1
         else:
             self._statistic.success += 1
-- 
2.43.0


From 1f70a50240cb9cfaeeb3759026531b7da92daa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:00 +0000
Subject: [PATCH 88/90] fix: report the number of processes of a pool of the
 default size

---
 aiomisc/process_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/process_pool.py b/aiomisc/process_pool.py
index 89b3251..fdc30d2 100644
--- a/aiomisc/process_pool.py
+++ b/aiomisc/process_pool.py
@@ -73,7 +73,7 @@ class ProcessPoolExecutor(ProcessPoolExecutorBase, EventLoopMixin):
         """
         super().__init__(max_workers=max_workers, **kwargs)
         self._statistic = ProcessPoolStatistic()
-        self._statistic.processes = max_workers
+        self._statistic.processes = self._max_workers
 
     def _statistic_callback(
         self,
-- 
2.43.0


From 3f379eef91ea9890a1d66f1afbc433690988521e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:24 +0000
Subject: [PATCH 89/90] fix: close a generator which is run in a thread and
 referenced by somebody else

---
 aiomisc/iterator_wrapper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aiomisc/iterator_wrapper.py b/aiomisc/iterator_wrapper.py
index 3bdff2a..8a60dd4 100644
--- a/aiomisc/iterator_wrapper.py
+++ b/aiomisc/iterator_wrapper.py
@@ -225,6 +225,10 @@ class IteratorWrapper(AsyncIterator, EventLoopMixin):
                         del item
 
                     self._statistic.enqueued += 1
+
+                if inspect.isgenerator(gen):
+                    # somebody else might refer to it
+                    gen.close()
             except StopIteration:
                 return
             except BaseException as e:
-- 
2.43.0


From edcb5ce67b1bcb45405dff5be523bd17e57781c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:56 +0000
Subject: [PATCH 90/90] fix: count failed calls of a process pool whose
 exception is falsy

---
 aiomisc/process_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/process_pool.py b/aiomisc/process_pool.py
index fdc30d2..3640d4f 100644
--- a/aiomisc/process_pool.py
+++ b/aiomisc/process_pool.py
@@ -87,7 +87,7 @@ class ProcessPoolExecutor(ProcessPoolExecutorBase, EventLoopMixin):
         if future.cancelled():
             # neither failed nor succeeded, asking for its exception raises
             pass
-        elif future.exception():
+        elif future.exception() is not None:
             self._statistic.error += 1
         else:
             self._statistic.success += 1
-- 
2.43.0

