From a8a7138c255cdb4b2d843f448b440a4d0a6e1fe0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 01/39] fix: shut down the delaying queue instead of recursing

---
 aiok8s/workqueue/delaying_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/workqueue/delaying_queue.py b/aiok8s/workqueue/delaying_queue.py
index a9768d5..fb266b2 100644
--- a/aiok8s/workqueue/delaying_queue.py
+++ b/aiok8s/workqueue/delaying_queue.py
@@ -59,7 +59,7 @@ class _DelayingType(queue.Type):
     async def shut_down(self):
         if not self._stop_event.is_set():
             self._stop_event.set()
-            await self.shut_down()
+            await super().shut_down()
             self._heartbeat.stop()
 
     async def _waiting_loop(self):
-- 
2.43.0


From 507de7d10a4d27f303d4edcb43dbcc0087ef6d85 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 02/39] fix: pass on a work queue notification when its waiter
 is cancelled

---
 aiok8s/workqueue/queue.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aiok8s/workqueue/queue.py b/aiok8s/workqueue/queue.py
index 6bfa29d..b1a4437 100644
--- a/aiok8s/workqueue/queue.py
+++ b/aiok8s/workqueue/queue.py
@@ -53,7 +53,12 @@ class Type:
     async def get(self):
         async with self._cond:
             while not self._queue and not self._shutting_down:
-                await self._cond.wait()
+                try:
+                    await self._cond.wait()
+                except asyncio.CancelledError:
+                    # This waiter may have been notified already: pass it on.
+                    self._cond.notify()
+                    raise
             if not self._queue:
                 return None, True
             item = self._queue.popleft()
-- 
2.43.0


From ca79ec8b4287be103d46afde3344ecb9a9440896 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 03/39] fix: cap the exponential backoff instead of overflowing

---
 aiok8s/workqueue/default_rate_limiters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aiok8s/workqueue/default_rate_limiters.py b/aiok8s/workqueue/default_rate_limiters.py
index e0c7504..33c0ee4 100644
--- a/aiok8s/workqueue/default_rate_limiters.py
+++ b/aiok8s/workqueue/default_rate_limiters.py
@@ -67,7 +67,10 @@ class ItemExponentialFailureRateLimiter:
         exp = self._failures[item]
         self._failures[item] += 1
 
-        backoff = self._base_delay * 2 ** exp
+        try:
+            backoff = self._base_delay * 2 ** exp
+        except OverflowError:
+            return self._max_delay
         calculated = min(backoff, self._max_delay)
         return calculated
 
-- 
2.43.0


From 08a28e6e1b9eed4dda3435e0c2e2212f065ccc4c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 04/39] fix: delete pending objects that are absent from a
 replacing list

---
 aiok8s/cache/delta_fifo.py | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/aiok8s/cache/delta_fifo.py b/aiok8s/cache/delta_fifo.py
index 5534780..7e3e43d 100644
--- a/aiok8s/cache/delta_fifo.py
+++ b/aiok8s/cache/delta_fifo.py
@@ -82,28 +82,25 @@ class DeltaFIFO:
                 key = self.key_of(item)
                 keys.add(key)
                 self._queue_action_locked(DeltaType.SYNC, item)
-            if not self._known_objects:
-                queued_deletions = 0
-                for k, old_item in self._items.items():
-                    if k in keys:
-                        continue
-                    deleted_obj = None
-                    n = old_item.newest()
-                    if n:
-                        deleted_obj = n.object
-                    queued_deletions += 1
-                    self._queue_action_locked(
-                        DeltaType.DELETED, DeletedFinalStateUnknown(k, deleted_obj)
-                    )
-                if not self._populated:
-                    self._populated = True
-                    self._initial_population_count = len(list_) + queued_deletions
-                return
-            known_keys = self._known_objects.list_keys()
             queued_deletions = 0
-            for k in known_keys:
+            # Objects that are still pending, whether or not they are known yet
+            for k, old_item in self._items.items():
                 if k in keys:
                     continue
+                deleted_obj = None
+                n = old_item.newest()
+                if n:
+                    deleted_obj = n.object
+                    if isinstance(deleted_obj, DeletedFinalStateUnknown):
+                        deleted_obj = deleted_obj.obj
+                queued_deletions += 1
+                self._queue_action_locked(
+                    DeltaType.DELETED, DeletedFinalStateUnknown(k, deleted_obj)
+                )
+            known_keys = self._known_objects.list_keys() if self._known_objects else []
+            for k in known_keys:
+                if k in keys or k in self._items:
+                    continue
                 try:
                     deleted_obj = self._known_objects.get_by_key(k)
                 except Exception as e:
-- 
2.43.0


From 183aa6ecb5006619c1771c7057c33dcba6e6dd16 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 05/39] fix: keep the sync of an object that was re-created
 after a pending deletion

---
 aiok8s/cache/delta_fifo.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/aiok8s/cache/delta_fifo.py b/aiok8s/cache/delta_fifo.py
index 7e3e43d..92ca30b 100644
--- a/aiok8s/cache/delta_fifo.py
+++ b/aiok8s/cache/delta_fifo.py
@@ -194,14 +194,8 @@ class DeltaFIFO:
         self._items[id_] = deltas
         self._cond.notify_all()
 
-    def _will_object_be_deleted_locked(self, id_):
-        deltas = self._items.get(id_)
-        return deltas and deltas[-1].type is DeltaType.DELETED
-
     def _queue_action_locked(self, action_type, obj):
         id_ = self.key_of(obj)
-        if action_type is DeltaType.SYNC and self._will_object_be_deleted_locked(id_):
-            return
         new_deltas = Deltas([*self._items.get(id_, []), Delta(action_type, obj)])
         new_deltas = _dedup_deltas(new_deltas)
         if new_deltas:
-- 
2.43.0


From 0e056674c933a9c3035a72c3422614a27535ddfe Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 06/39] fix: report synced only after the initial list was
 processed, not when it is popped

---
 aiok8s/cache/delta_fifo.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/aiok8s/cache/delta_fifo.py b/aiok8s/cache/delta_fifo.py
index 92ca30b..42502c8 100644
--- a/aiok8s/cache/delta_fifo.py
+++ b/aiok8s/cache/delta_fifo.py
@@ -142,13 +142,16 @@ class DeltaFIFO:
                         raise fifo.FIFOClosedError
                     await self._cond.wait()
                 id_ = self._queue.pop(0)
-                if self._initial_population_count:
-                    self._initial_population_count -= 1
                 if id_ not in self._items:
+                    self._decrement_initial_population_count_locked()
                     continue
                 item = self._items.pop(id_)
                 try:
-                    await process(item)
+                    try:
+                        await process(item)
+                    finally:
+                        # Only now is an item of the initial list fully processed
+                        self._decrement_initial_population_count_locked()
                 except fifo.RequeueError as e:
                     self._add_if_not_present(id_, item)
                     if e.__cause__:
@@ -194,6 +197,10 @@ class DeltaFIFO:
         self._items[id_] = deltas
         self._cond.notify_all()
 
+    def _decrement_initial_population_count_locked(self):
+        if self._initial_population_count:
+            self._initial_population_count -= 1
+
     def _queue_action_locked(self, action_type, obj):
         id_ = self.key_of(obj)
         new_deltas = Deltas([*self._items.get(id_, []), Delta(action_type, obj)])
-- 
2.43.0


From 5056f0ae8a4bd8840e089e8cfd4035fcec044c6a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 07/39] fix: let a list replacing an unprocessed initial list
 complete the FIFO's sync

---
 aiok8s/cache/fifo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aiok8s/cache/fifo.py b/aiok8s/cache/fifo.py
index 7e6914d..fb47fca 100644
--- a/aiok8s/cache/fifo.py
+++ b/aiok8s/cache/fifo.py
@@ -90,7 +90,9 @@ class FIFO:
                 raise store.StoreKeyError(item) from e
             items[key] = item
         async with self._lock:
-            if not self._populated:
+            # A list that replaces an initial list that is still being processed
+            # takes over its role
+            if not self._populated or self._initial_population_count:
                 self._populated = True
                 self._initial_population_count = len(items)
 
-- 
2.43.0


From f86c7b233111b88811c241a3d530dfaee35f51e2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:02:07 +0000
Subject: [PATCH 08/39] fix: refuse only conflicting indexers

---
 aiok8s/cache/thread_safe_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/thread_safe_store.py b/aiok8s/cache/thread_safe_store.py
index 49b5d33..ff7e774 100644
--- a/aiok8s/cache/thread_safe_store.py
+++ b/aiok8s/cache/thread_safe_store.py
@@ -113,7 +113,7 @@ class _ThreadSafeMap:
                 raise Exception("cannot add indexers to running index")
             old_keys = self._indexers.keys()
             new_keys = new_indexers.keys()
-            if old_keys | new_keys:
+            if old_keys & new_keys:
                 raise Exception(f"indexer conflict: {old_keys & new_keys}")
             self._indexers.update(new_indexers)
 
-- 
2.43.0


From dd74719197cc3c0f0d8c44a5d0d47e3fd8b9f598 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 09/39] fix: allow an index function to yield a value twice

---
 aiok8s/cache/thread_safe_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/thread_safe_store.py b/aiok8s/cache/thread_safe_store.py
index ff7e774..38fb932 100644
--- a/aiok8s/cache/thread_safe_store.py
+++ b/aiok8s/cache/thread_safe_store.py
@@ -139,6 +139,6 @@ class _ThreadSafeMap:
             for index_value in index_values:
                 set_ = index.get(index_value)
                 if set_:
-                    set_.remove(key)
+                    set_.discard(key)
                     if not set_:
                         del index[index_value]
-- 
2.43.0


From 23815829927938a987b76bd19f2300e2730e76d4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:16:21 +0000
Subject: [PATCH 10/39] fix: understand the api version of core group objects

---
 aiok8s/api/meta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiok8s/api/meta.py b/aiok8s/api/meta.py
index df8f547..cbfbf3c 100644
--- a/aiok8s/api/meta.py
+++ b/aiok8s/api/meta.py
@@ -161,7 +161,8 @@ class _ObjectAccessor:
     # Motivated by apimachinery/pkg/apis/meta/v1/meta.go GroupVersionKind()
     @property
     def group_version_kind(self):
-        group, version = self.api_version.split("/")
+        # Objects of the core group only have a version
+        group, _, version = self.api_version.rpartition("/")
         return schema.GroupVersionKind(group, version, self.kind)
 
 
-- 
2.43.0


From 3f3badb13fcd93a994ff0fe60a51db9bbd5c8adc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:16:21 +0000
Subject: [PATCH 11/39] fix: allow unstructured objects without a namespace

---
 aiok8s/api/meta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiok8s/api/meta.py b/aiok8s/api/meta.py
index cbfbf3c..e60d7ce 100644
--- a/aiok8s/api/meta.py
+++ b/aiok8s/api/meta.py
@@ -127,7 +127,8 @@ class _UnstructuredAccessor:
 
     @property
     def namespace(self):
-        return self._metadata["namespace"]
+        # Cluster-scoped objects have none
+        return self._metadata.get("namespace")
 
     @property
     def name(self):
-- 
2.43.0


From 2f04ea09690b1f9ecdcff6873422e00bbd089a37 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 12/39] fix: end the watch when its stream fails

---
 aiok8s/cache/reflector.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/aiok8s/cache/reflector.py b/aiok8s/cache/reflector.py
index 3d4c339..caebc3b 100644
--- a/aiok8s/cache/reflector.py
+++ b/aiok8s/cache/reflector.py
@@ -146,10 +146,12 @@ class Reflector:
         event_queue = asyncio.Queue()
 
         async def get_events():
-            async with w:
-                async for event in w:
-                    await event_queue.put(event)
-            await event_queue.put(None)
+            try:
+                async with w:
+                    async for event in w:
+                        await event_queue.put(event)
+            finally:
+                event_queue.put_nowait(None)
 
         get_events_task = asyncio.ensure_future(get_events())
         error_task = asyncio.ensure_future(error_queue.get())
@@ -163,6 +165,8 @@ class Reflector:
                     raise await error_task
                 event = await event_task
                 if event is None:
+                    # Raises if the stream failed
+                    await get_events_task
                     break
                 if event["type"] == watch.EventType.ERROR:
                     raise Exception
-- 
2.43.0


From 9ed9ed8da0d250185c6b77b66d88a9a196fb6e07 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:17:48 +0000
Subject: [PATCH 13/39] fix: keep taking notifications while a handler is busy

---
 aiok8s/cache/shared_informer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aiok8s/cache/shared_informer.py b/aiok8s/cache/shared_informer.py
index 1458ce4..77cd89b 100644
--- a/aiok8s/cache/shared_informer.py
+++ b/aiok8s/cache/shared_informer.py
@@ -348,7 +348,6 @@ class _ProcessListener:
                 else:
                     get_task.cancel()
                 if put_task in done:
-                    await next_queue.join()
                     if self._pending_notifications:
                         notification = self._pending_notifications.popleft()
                     else:
-- 
2.43.0


From 5feb7682b1e2dcf643367ac5f93bbde908489c8b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 14/39] fix: tell every listener about changes found by a
 relist

---
 aiok8s/cache/shared_informer.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/aiok8s/cache/shared_informer.py b/aiok8s/cache/shared_informer.py
index 77cd89b..25c3b8c 100644
--- a/aiok8s/cache/shared_informer.py
+++ b/aiok8s/cache/shared_informer.py
@@ -17,6 +17,7 @@ import collections
 import logging
 from typing import Any, NamedTuple
 
+from aiok8s.api import meta
 from aiok8s.cache import controller, delta_fifo, index, store
 from aiok8s.util import clock, retry, wait
 
@@ -181,9 +182,15 @@ class _SharedIndexInformer:
                     delta_fifo.DeltaType.ADDED,
                     delta_fifo.DeltaType.UPDATED,
                 ):
-                    is_sync = d.type == delta_fifo.DeltaType.SYNC
                     old = self._indexer.get(d.object)
                     if old is not None:
+                        # Relists are queued as syncs as well. Only if nothing changed
+                        # is it enough to tell the listeners that are to be resynced.
+                        is_sync = (
+                            d.type == delta_fifo.DeltaType.SYNC
+                            and meta.accessor(old).resource_version
+                            == meta.accessor(d.object).resource_version
+                        )
                         await self._indexer.update(d.object)
                         await self._processor._distribute(
                             _UpdateNotification(old_obj=old, new_obj=d.object), is_sync
@@ -191,7 +198,7 @@ class _SharedIndexInformer:
                     else:
                         await self._indexer.add(d.object)
                         await self._processor._distribute(
-                            _AddNotification(new_obj=d.object), is_sync
+                            _AddNotification(new_obj=d.object), False
                         )
                 elif d.type == delta_fifo.DeltaType.DELETED:
                     await self._indexer.delete(d.object)
-- 
2.43.0


From 208a0da31c3fc639c8613b03adde5dd6f5cebb43 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:38:57 +0000
Subject: [PATCH 15/39] fix: keep the store right when an informer's handler
 raises

---
 aiok8s/cache/controller.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/aiok8s/cache/controller.py b/aiok8s/cache/controller.py
index b2ddc0b..92533b5 100644
--- a/aiok8s/cache/controller.py
+++ b/aiok8s/cache/controller.py
@@ -13,11 +13,14 @@
 # limitations under the License.
 
 import asyncio
+import logging
 from typing import Any, Awaitable, Callable, NamedTuple, Optional
 
 from aiok8s.cache import delta_fifo, fifo, reflector, store
 from aiok8s.util import clock
 
+logger = logging.getLogger(__name__)
+
 ShouldResyncFunc = Callable[[], bool]
 ProcessFunc = Callable[[Any], Awaitable[None]]
 
@@ -120,6 +123,15 @@ def _new_informer(lw, obj_type, resync_period, h, client_state):
         store.meta_namespace_key_func, known_objects=client_state
     )
 
+    async def notify(handler_func, *args):
+        # The remaining deltas still have to reach the store
+        try:
+            await handler_func(*args)
+        except asyncio.CancelledError:
+            raise
+        except Exception:
+            logger.exception("event handler failed")
+
     async def process(obj):
         for d in obj:
             if d.type in (
@@ -130,13 +142,13 @@ def _new_informer(lw, obj_type, resync_period, h, client_state):
                 old = client_state.get(d.object)
                 if old is not None:
                     await client_state.update(d.object)
-                    await h.on_update(old, d.object)
+                    await notify(h.on_update, old, d.object)
                 else:
                     await client_state.add(d.object)
-                    await h.on_add(d.object)
+                    await notify(h.on_add, d.object)
             elif d.type == delta_fifo.DeltaType.DELETED:
                 await client_state.delete(d.object)
-                await h.on_delete(d.object)
+                await notify(h.on_delete, d.object)
             else:
                 raise AssertionError
 
-- 
2.43.0


From d0bb5562190624a433156738558d836b413ab431 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 16/39] fix: resync only the handlers that are due

---
 aiok8s/cache/shared_informer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aiok8s/cache/shared_informer.py b/aiok8s/cache/shared_informer.py
index 25c3b8c..b0085e8 100644
--- a/aiok8s/cache/shared_informer.py
+++ b/aiok8s/cache/shared_informer.py
@@ -261,7 +261,6 @@ class _SharedProcessor:
 
     def _add_listener_locked(self, listener):
         self._listeners.append(listener)
-        self._syncing_listeners.append(listener)
 
     async def _distribute(self, obj, sync):
         async with self._listeners_lock:
-- 
2.43.0


From b9fd10313a64145c1a7d7d5f73a2ae046a9f11ff Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:56:29 +0000
Subject: [PATCH 17/39] fix: run informers that are requested after the cache
 was started

---
 aiok8s/controller/_informers_map.py | 42 ++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/aiok8s/controller/_informers_map.py b/aiok8s/controller/_informers_map.py
index ce301d5..1e0aef3 100644
--- a/aiok8s/controller/_informers_map.py
+++ b/aiok8s/controller/_informers_map.py
@@ -34,15 +34,35 @@ class _SpecificInformersMap:
         self._informers_by_gvk = {}
         self._mutex = asyncio.Lock()
         self._started = False
+        self._stopped = False
+        self._tasks = []
+        self._failed = None
 
     async def start(self):
-        async with self._mutex:
-            aws = [
-                asyncio.ensure_future(informer.informer.run())
-                for informer in self._informers_by_gvk.values()
-            ]
-            self._started = True
-        await asyncio.gather(*aws)
+        try:
+            async with self._mutex:
+                self._failed = asyncio.get_event_loop().create_future()
+                for informer in self._informers_by_gvk.values():
+                    self._run_informer(informer)
+                self._started = True
+            # Informers that are added later run as well
+            await self._failed
+        finally:
+            self._stopped = True
+            for task in self._tasks:
+                task.cancel()
+            await asyncio.gather(*self._tasks, return_exceptions=True)
+
+    def _run_informer(self, informer):
+        task = asyncio.ensure_future(informer.informer.run())
+        task.add_done_callback(self._informer_done)
+        self._tasks.append(task)
+
+    def _informer_done(self, task):
+        if task.cancelled() or self._failed.done():
+            return
+        if task.exception():
+            self._failed.set_exception(task.exception())
 
     def has_synced_funcs(self):
         return [
@@ -54,8 +74,12 @@ class _SpecificInformersMap:
             informer = self._informers_by_gvk.get(gvk)
             started = self._started
 
-        if not informer:
-            informer = self._add_informer_to_map(gvk, obj)
+            if not informer:
+                if self._stopped:
+                    raise Exception(f"failed to add {obj} Informer: already stopped")
+                informer = self._add_informer_to_map(gvk, obj)
+                if started:
+                    self._run_informer(informer)
 
         if started and not informer.informer.has_synced():
             if not await shared_informer.wait_for_cache_sync(
-- 
2.43.0


From e8828c1f697b31c9c4dfc86cec48589997d22387 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:57:14 +0000
Subject: [PATCH 18/39] fix: reconcile after deletions that were found by a
 relist

---
 aiok8s/controller/source.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aiok8s/controller/source.py b/aiok8s/controller/source.py
index 5ede8da..2c2bc04 100644
--- a/aiok8s/controller/source.py
+++ b/aiok8s/controller/source.py
@@ -16,6 +16,7 @@ import logging
 from typing import Any, Collection, NamedTuple
 
 from aiok8s.api import meta
+from aiok8s.cache import delta_fifo
 from aiok8s.controller import event
 
 logger = logging.getLogger(__name__)
@@ -79,6 +80,10 @@ class EventHandler(NamedTuple):
         await self.event_handler.update(update_event, self.queue)
 
     async def on_delete(self, obj):
+        # The deletion was found by a relist
+        if isinstance(obj, delta_fifo.DeletedFinalStateUnknown):
+            obj = obj.obj
+
         try:
             metadata = meta.accessor(obj)
         except Exception:
-- 
2.43.0


From f16f37c58f494f89e67cc149d014ec2993b9dd34 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:57:14 +0000
Subject: [PATCH 19/39] fix: jitter the resync period around the requested one

---
 aiok8s/controller/_informers_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/controller/_informers_map.py b/aiok8s/controller/_informers_map.py
index 1e0aef3..ab020f0 100644
--- a/aiok8s/controller/_informers_map.py
+++ b/aiok8s/controller/_informers_map.py
@@ -125,7 +125,7 @@ def _create_structured_list_watch(gvk, ip):
 
 
 def _resync_period(resync):
-    return lambda: resync * (random.random() / 5 * 0.9)
+    return lambda: resync * (random.random() / 5 + 0.9)
 
 
 def _get_kwargs(ip, options):
-- 
2.43.0


From 89769615c93264f96aab8f6a90fabf4099fce4db Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:59:55 +0000
Subject: [PATCH 20/39] fix: stop the cache when the manager is cancelled
 before it synced

---
 aiok8s/controller/manager.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aiok8s/controller/manager.py b/aiok8s/controller/manager.py
index 0df810b..11ed058 100644
--- a/aiok8s/controller/manager.py
+++ b/aiok8s/controller/manager.py
@@ -59,6 +59,11 @@ class _ControllerManager:
         if self._started:
             return
         task = asyncio.ensure_future(self._cache.start())
-        await self._cache.wait_for_cache_sync()
+        try:
+            await self._cache.wait_for_cache_sync()
+        except asyncio.CancelledError:
+            task.cancel()
+            await asyncio.gather(task, return_exceptions=True)
+            raise
         self._started = True
         return task
-- 
2.43.0


From a92551af9a976a584c16e6a4611be76e5eaf61d2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:59:55 +0000
Subject: [PATCH 21/39] fix: stop the delaying queue's timer when it is shut
 down

---
 aiok8s/workqueue/delaying_queue.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aiok8s/workqueue/delaying_queue.py b/aiok8s/workqueue/delaying_queue.py
index fb266b2..37cd163 100644
--- a/aiok8s/workqueue/delaying_queue.py
+++ b/aiok8s/workqueue/delaying_queue.py
@@ -99,7 +99,7 @@ class _DelayingType(queue.Type):
                 task.cancel()
             await asyncio.gather(*pending, return_exceptions=True)
             if self._stop_event.is_set():
-                return
+                break
             if wait_task in done:
                 wait_entry = await wait_task
                 if wait_entry.ready_at > self._clock.now():
@@ -114,6 +114,9 @@ class _DelayingType(queue.Type):
                     else:
                         await self.add(wait_entry.data)
 
+        if next_ready_at_timer:
+            next_ready_at_timer.stop()
+
 
 class _WaitFor(NamedTuple):
     data: Hashable
-- 
2.43.0


From 6dce884b153e7259f55a560056b8b04c97c2bdf9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:02:18 +0000
Subject: [PATCH 22/39] fix: stop the manager and its controllers only after
 what they started

---
 aiok8s/controller/controller.py | 9 +++++++--
 aiok8s/controller/manager.py    | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/aiok8s/controller/controller.py b/aiok8s/controller/controller.py
index e2e48a7..6e176b0 100644
--- a/aiok8s/controller/controller.py
+++ b/aiok8s/controller/controller.py
@@ -70,12 +70,17 @@ class _Controller:
                         await self._worker()
                         await asyncio.sleep(self.jitter_period)
 
-                aws = [
+                tasks = [
                     asyncio.ensure_future(aw())
                     for _ in range(self.max_concurrent_reconciles)
                 ]
 
-            await asyncio.gather(*aws)
+            try:
+                await asyncio.gather(*map(asyncio.shield, tasks))
+            finally:
+                for task in tasks:
+                    task.cancel()
+                await asyncio.gather(*tasks, return_exceptions=True)
         finally:
             await self.queue.shut_down()
 
diff --git a/aiok8s/controller/manager.py b/aiok8s/controller/manager.py
index 11ed058..268c157 100644
--- a/aiok8s/controller/manager.py
+++ b/aiok8s/controller/manager.py
@@ -49,11 +49,16 @@ class _ControllerManager:
     async def _start_non_leader_election_runnables(self):
         async with self._mutex:
             task = await self._wait_for_cache()
-            aws = [
+            tasks = [task] + [
                 asyncio.ensure_future(controller.start())
                 for controller in self._non_leader_election_runnables
             ]
-        await asyncio.gather(task, *aws)
+        try:
+            await asyncio.gather(*map(asyncio.shield, tasks))
+        finally:
+            for task in tasks:
+                task.cancel()
+            await asyncio.gather(*tasks, return_exceptions=True)
 
     async def _wait_for_cache(self):
         if self._started:
-- 
2.43.0


From d021f882f46391d84fbee45ef3f4f1b4d3c32b08 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:18:06 +0000
Subject: [PATCH 23/39] fix: import the API classes from where
 kubernetes_asyncio has them

---
 aiok8s/leaderelection/resourcelock.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiok8s/leaderelection/resourcelock.py b/aiok8s/leaderelection/resourcelock.py
index 39322b9..6314514 100644
--- a/aiok8s/leaderelection/resourcelock.py
+++ b/aiok8s/leaderelection/resourcelock.py
@@ -15,7 +15,7 @@
 import json
 from typing import NamedTuple
 
-from kubernetes_asyncio.client import apis, models
+from kubernetes_asyncio.client import api, models
 
 LEADER_ELECTION_RECORD_ANNOTATION_KEY = "control-plane.alpha.kubernetes.io/leader"
 
@@ -27,7 +27,7 @@ class ResourceLockConfig(NamedTuple):
 def new(namespace, name, rlc, client=None):
     return ConfigMapLock(
         config_map_meta=models.V1ObjectMeta(namespace=namespace, name=name),
-        client=apis.CoreV1Api(client),
+        client=api.CoreV1Api(client),
         lock_config=rlc,
     )
 
-- 
2.43.0


From df2235c6b14278f3937d5b21ff93a4b8a37b30d2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:18:06 +0000
Subject: [PATCH 24/39] fix: start the leader elector without an observed
 record

---
 aiok8s/leaderelection/leaderelection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index 6bb9ea7..dcbc07d 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -61,6 +61,10 @@ class LeaderElector:
             raise Exception("lock must not be None")
         self._config = lec
         self._clock = clock.RealClock()
+        self._observed_record = {}
+        self._observed_raw_record = None
+        self._observed_time = self._clock.now()
+        self._reported_leader = None
 
     async def run(self):
         try:
-- 
2.43.0


From 93e06b8d3681d324fed0f11ac5b45e1cb5bcf61a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:18:06 +0000
Subject: [PATCH 25/39] fix: read the observed leader election record as the
 dict it is

---
 aiok8s/leaderelection/leaderelection.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index dcbc07d..e974059 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -78,7 +78,7 @@ class LeaderElector:
             await asyncio.gather(task, return_exceptions=True)
 
     def is_leader(self):
-        return self._observed_record.holder_identity == self._config.lock.identity()
+        return self._observed_record.get("holderIdentity") == self._config.lock.identity()
 
     async def _acquire(self):
         succeeded = False
@@ -211,9 +211,10 @@ class LeaderElector:
         return True
 
     def _maybe_report_transition(self):
-        if self._observed_record.holder_identity == self._reported_leader:
+        holder_identity = self._observed_record.get("holderIdentity")
+        if holder_identity == self._reported_leader:
             return
-        self._reported_leader = self._observed_record.holder_identity
+        self._reported_leader = holder_identity
         if self._config.callbacks.on_new_leader:
             asyncio.ensure_future(
                 self._config.callbacks.on_new_leader(self._reported_leader)
-- 
2.43.0


From 4046a080f777571114b02211b4f6e22eb89fb304 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:18:06 +0000
Subject: [PATCH 26/39] fix: create the lock when its config map does not exist

---
 aiok8s/leaderelection/resourcelock.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/aiok8s/leaderelection/resourcelock.py b/aiok8s/leaderelection/resourcelock.py
index 6314514..2f68a09 100644
--- a/aiok8s/leaderelection/resourcelock.py
+++ b/aiok8s/leaderelection/resourcelock.py
@@ -15,7 +15,7 @@
 import json
 from typing import NamedTuple
 
-from kubernetes_asyncio.client import api, models
+from kubernetes_asyncio.client import api, models, rest
 
 LEADER_ELECTION_RECORD_ANNOTATION_KEY = "control-plane.alpha.kubernetes.io/leader"
 
@@ -40,9 +40,14 @@ class ConfigMapLock:
         self._cm = None
 
     async def get(self):
-        self._cm = await self.client.read_namespaced_config_map(
-            self.config_map_meta.name, self.config_map_meta.namespace
-        )
+        try:
+            self._cm = await self.client.read_namespaced_config_map(
+                self.config_map_meta.name, self.config_map_meta.namespace
+            )
+        except rest.ApiException as e:
+            if e.status != 404:
+                raise
+            return None, None
         raw_record = (
             self._cm.metadata.annotations
             and self._cm.metadata.annotations.get(LEADER_ELECTION_RECORD_ANNOTATION_KEY)
-- 
2.43.0


From b4a5448a70884aa392c219a5abdf5f377108b215 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:18:06 +0000
Subject: [PATCH 27/39] fix: take a lock whose config map has no record

---
 aiok8s/leaderelection/resourcelock.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aiok8s/leaderelection/resourcelock.py b/aiok8s/leaderelection/resourcelock.py
index 2f68a09..f402a36 100644
--- a/aiok8s/leaderelection/resourcelock.py
+++ b/aiok8s/leaderelection/resourcelock.py
@@ -52,7 +52,7 @@ class ConfigMapLock:
             self._cm.metadata.annotations
             and self._cm.metadata.annotations.get(LEADER_ELECTION_RECORD_ANNOTATION_KEY)
         )
-        record = raw_record and json.loads(raw_record)
+        record = json.loads(raw_record) if raw_record else {}
         return record, raw_record
 
     async def create(self, leader_election_record):
@@ -72,6 +72,8 @@ class ConfigMapLock:
         if not self._cm:
             raise Exception("configmap not initialized, call get or create first")
         raw_record = json.dumps(leader_election_record)
+        if self._cm.metadata.annotations is None:
+            self._cm.metadata.annotations = {}
         self._cm.metadata.annotations[
             LEADER_ELECTION_RECORD_ANNOTATION_KEY
         ] = raw_record
-- 
2.43.0


From d529972a0934f0b94c1fd6b60e4859c367dc5501 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:18:07 +0000
Subject: [PATCH 28/39] fix: count the leader transitions of a new record from
 zero

---
 aiok8s/leaderelection/leaderelection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index e974059..edcdec2 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -127,7 +127,7 @@ class LeaderElector:
         if not self.is_leader():
             return True
         leader_election_record = {
-            "leaderTransitions": self._observed_record["leaderTransitions"]
+            "leaderTransitions": self._observed_record.get("leaderTransitions", 0)
         }
         try:
             await self._config.lock.update(leader_election_record)
@@ -190,12 +190,12 @@ class LeaderElector:
             leader_election_record["acquireTime"] = old_leader_election_record[
                 "acquireTime"
             ]
-            leader_election_record["leaderTransitions"] = old_leader_election_record[
+            leader_election_record[
                 "leaderTransitions"
-            ]
+            ] = old_leader_election_record.get("leaderTransitions", 0)
         else:
             leader_election_record["leaderTransitions"] = (
-                old_leader_election_record["leaderTransitions"] + 1
+                old_leader_election_record.get("leaderTransitions", 0) + 1
             )
 
         try:
-- 
2.43.0


From a7aec59facd0f244a138622b3739007ad9723215 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:18:07 +0000
Subject: [PATCH 29/39] fix: let the leader elector be cancelled before it
 leads

---
 aiok8s/leaderelection/leaderelection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index edcdec2..905f515 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -67,15 +67,18 @@ class LeaderElector:
         self._reported_leader = None
 
     async def run(self):
+        task = None
         try:
             if not await self._acquire():
                 return
             task = asyncio.ensure_future(self._config.callbacks.on_started_leading())
             await self._renew()
         finally:
-            task.cancel()
+            if task:
+                task.cancel()
             await self._config.callbacks.on_stopped_leading()
-            await asyncio.gather(task, return_exceptions=True)
+            if task:
+                await asyncio.gather(task, return_exceptions=True)
 
     def is_leader(self):
         return self._observed_record.get("holderIdentity") == self._config.lock.identity()
-- 
2.43.0


From 135711a1da639669df7aeb6c2a5e0a3a9cd2b186 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:18:07 +0000
Subject: [PATCH 30/39] fix: stop leading when the lease was not renewed by the
 deadline

---
 aiok8s/leaderelection/leaderelection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index 905f515..c8fc988 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -109,8 +109,11 @@ class LeaderElector:
             while True:
                 description = self._config.lock.describe()
                 try:
-                    await wait.poll_immediate_infinite(
-                        self._config.retry_period, self._try_acquire_or_renew
+                    await asyncio.wait_for(
+                        wait.poll_immediate_infinite(
+                            self._config.retry_period, self._try_acquire_or_renew
+                        ),
+                        self._config.renew_deadline,
                     )
                 except asyncio.CancelledError:
                     raise
-- 
2.43.0


From 6950a2e1c47398613bec9aec128945ee657a60af Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:18:07 +0000
Subject: [PATCH 31/39] fix: stop leading before the lock is released

---
 aiok8s/leaderelection/leaderelection.py | 44 ++++++++++++-------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index c8fc988..bf44bf8 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -79,6 +79,8 @@ class LeaderElector:
             await self._config.callbacks.on_stopped_leading()
             if task:
                 await asyncio.gather(task, return_exceptions=True)
+            if self._config.release_on_cancel:
+                await self._release()
 
     def is_leader(self):
         return self._observed_record.get("holderIdentity") == self._config.lock.identity()
@@ -105,29 +107,25 @@ class LeaderElector:
         return succeeded
 
     async def _renew(self):
-        try:
-            while True:
-                description = self._config.lock.describe()
-                try:
-                    await asyncio.wait_for(
-                        wait.poll_immediate_infinite(
-                            self._config.retry_period, self._try_acquire_or_renew
-                        ),
-                        self._config.renew_deadline,
-                    )
-                except asyncio.CancelledError:
-                    raise
-                except Exception as e:
-                    logger.info("failed to renew lease %s: %r", description, e)
-                    break
-                else:
-                    logger.debug("successfully renewed lease %s", description)
-                finally:
-                    self._maybe_report_transition()
-                await asyncio.sleep(self._config.retry_period)
-        finally:
-            if self._config.release_on_cancel:
-                await self._release()
+        while True:
+            description = self._config.lock.describe()
+            try:
+                await asyncio.wait_for(
+                    wait.poll_immediate_infinite(
+                        self._config.retry_period, self._try_acquire_or_renew
+                    ),
+                    self._config.renew_deadline,
+                )
+            except asyncio.CancelledError:
+                raise
+            except Exception as e:
+                logger.info("failed to renew lease %s: %r", description, e)
+                break
+            else:
+                logger.debug("successfully renewed lease %s", description)
+            finally:
+                self._maybe_report_transition()
+            await asyncio.sleep(self._config.retry_period)
 
     async def _release(self):
         if not self.is_leader():
-- 
2.43.0


From 54db51c1a270f46c8b1a916b5bbcf69f43a2af06 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:18:07 +0000
Subject: [PATCH 32/39] fix: time the lease with the monotonic clock

---
 aiok8s/leaderelection/leaderelection.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index bf44bf8..44fa388 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -17,7 +17,7 @@ import logging
 import time
 from typing import Any, Awaitable, Callable, NamedTuple
 
-from aiok8s.util import clock, wait
+from aiok8s.util import wait
 
 JITTER_FACTOR = 1.2
 logger = logging.getLogger(__name__)
@@ -60,10 +60,9 @@ class LeaderElector:
         if not lec.lock:
             raise Exception("lock must not be None")
         self._config = lec
-        self._clock = clock.RealClock()
         self._observed_record = {}
         self._observed_raw_record = None
-        self._observed_time = self._clock.now()
+        self._observed_time = time.monotonic()
         self._reported_leader = None
 
     async def run(self):
@@ -141,10 +140,11 @@ class LeaderElector:
             logger.error("Failed to release lock: %r", e)
             return False
         self._observed_record = leader_election_record
-        self._observed_time = self._clock.now()
+        self._observed_time = time.monotonic()
 
     async def _try_acquire_or_renew(self):
         now = time.time()
+        start = time.monotonic()
         leader_election_record = {
             "holderIdentity": self._config.lock.identity(),
             "leaseDurationSeconds": int(self._config.lease_duration),
@@ -172,16 +172,16 @@ class LeaderElector:
                 logger.error("error initially creating leader election record: %r", e)
                 return False
             self._observed_record = leader_election_record
-            self._observed_time = self._clock.now()
+            self._observed_time = time.monotonic()
             return True
 
         if self._observed_raw_record != old_leader_election_raw_record:
             self._observed_record = dict(old_leader_election_record)
             self._observed_raw_record = old_leader_election_raw_record
-            self._observed_time = self._clock.now()
+            self._observed_time = time.monotonic()
         if (
             old_leader_election_record.get("holderIdentity")
-            and self._observed_time + self._config.lease_duration > now
+            and self._observed_time + self._config.lease_duration > start
             and not self.is_leader()
         ):
             logger.debug(
@@ -211,7 +211,7 @@ class LeaderElector:
             return False
 
         self._observed_record = leader_election_record
-        self._observed_time = self._clock.now()
+        self._observed_time = time.monotonic()
         return True
 
     def _maybe_report_transition(self):
-- 
2.43.0


From 4631449031bce0c1f4ca3dfbb811826fd3012e26 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:48:38 +0000
Subject: [PATCH 33/39] fix: lose no event and wedge nobody when a
 broadcaster's reader or subscriber is cancelled

---
 aiok8s/watch/mux.py | 58 +++++++++++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 18 deletions(-)

diff --git a/aiok8s/watch/mux.py b/aiok8s/watch/mux.py
index 981557b..2d6b823 100644
--- a/aiok8s/watch/mux.py
+++ b/aiok8s/watch/mux.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 import asyncio
+import collections
 import enum
 
 
@@ -37,27 +38,21 @@ class Broadcaster:
         asyncio.ensure_future(self._loop())
 
     async def watch(self):
-        w = None
-
         async def f():
             async with self._lock:
-                nonlocal w
                 id_ = self._next_watcher
                 self._next_watcher += 1
                 w = _BroadcasterWatcher(
                     asyncio.Queue(maxsize=self._watch_queue_length), id_, self
                 )
                 self._watchers[id_] = w
+                return w
 
-        await self._block_queue(f)
-        return w
+        return await self._block_queue(f)
 
     async def watch_with_prefix(self, queued_events):
-        w = None
-
         async def f():
             async with self._lock:
-                nonlocal w
                 id_ = self._next_watcher
                 self._next_watcher += 1
                 n = len(queued_events) + 1
@@ -66,9 +61,9 @@ class Broadcaster:
                 self._watchers[id_] = w
                 for e in queued_events:
                     await w._put(e)
+                return w
 
-        await self._block_queue(f)
-        return w
+        return await self._block_queue(f)
 
     async def action(self, action, obj):
         await self._incoming.put({"type": action, "object": obj})
@@ -79,10 +74,16 @@ class Broadcaster:
 
     async def _block_queue(self, f):
         event = asyncio.Event()
+        abandoned = False
+        w = None
 
         async def func():
+            nonlocal w
             try:
-                await f()
+                if not abandoned:
+                    w = await f()
+                if abandoned and w:
+                    await w.stop()
             finally:
                 event.set()
 
@@ -92,7 +93,15 @@ class Broadcaster:
                 "object": _FunctionFakeRuntimeObject(func),
             }
         )
-        await event.wait()
+        try:
+            await event.wait()
+        except asyncio.CancelledError:
+            # nobody is going to read from this watcher
+            abandoned = True
+            if w:
+                asyncio.ensure_future(w.stop())
+            raise
+        return w
 
     async def _stop_watching(self, id_):
         async with self._lock:
@@ -156,23 +165,36 @@ class _BroadcasterWatcher:
         self._task = asyncio.ensure_future(self._stopped.wait())
         self._id = id_
         self._m = m
+        self._unread = collections.deque()
 
     def __aiter__(self):
         return self
 
     async def __anext__(self):
+        if self._unread:
+            return self._received(self._unread.popleft())
         event = asyncio.ensure_future(self._result.get())
         while True:
-            done, _ = await asyncio.wait(
-                [event, self._task], return_when=asyncio.FIRST_COMPLETED
-            )
+            try:
+                done, _ = await asyncio.wait(
+                    [event, self._task], return_when=asyncio.FIRST_COMPLETED
+                )
+            except asyncio.CancelledError:
+                # the event is for the next read
+                if not event.cancel():
+                    self._unread.append(event.result())
+                raise
             if event in done:
-                if not self._result.maxsize:
-                    self._result.task_done()
-                return await event
+                return self._received(event.result())
             if self._stopped.is_set():
+                event.cancel()
                 raise StopAsyncIteration
 
+    def _received(self, event):
+        if not self._result.maxsize:
+            self._result.task_done()
+        return event
+
     async def __aenter__(self):
         return self
 
-- 
2.43.0


From 76aa654afc2f848f70b519374f775cc354af23ee Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:56:32 +0000
Subject: [PATCH 34/39] fix: leave no task behind when a periodic loop ends

---
 aiok8s/util/wait.py | 71 +++++++++++++++++++++++++++------------------
 1 file changed, 43 insertions(+), 28 deletions(-)

diff --git a/aiok8s/util/wait.py b/aiok8s/util/wait.py
index ae86246..900afb0 100644
--- a/aiok8s/util/wait.py
+++ b/aiok8s/util/wait.py
@@ -27,19 +27,24 @@ async def loop(f, period):
 
 # `JitterUntil` from `client-go` without taking a stop argument
 async def jitter_loop(f, period, jitter_factor, sliding):
-    while True:
-        if jitter_factor > 0:
-            jittered_period = jitter(period, jitter_factor)
-        else:
-            jittered_period = period
-        if not sliding:
-            # TODO: Reuse
-            t = _time.Timer(jittered_period)
-        await f()
-        if sliding:
-            t = _time.Timer(jittered_period)
-
-        await t.c.get()
+    t = None
+    try:
+        while True:
+            if jitter_factor > 0:
+                jittered_period = jitter(period, jitter_factor)
+            else:
+                jittered_period = period
+            if not sliding:
+                # TODO: Reuse
+                t = _time.Timer(jittered_period)
+            await f()
+            if sliding:
+                t = _time.Timer(jittered_period)
+
+            await t.c.get()
+    finally:
+        if t:
+            t.stop()
 
 
 async def until(f, period, stop_event):
@@ -48,21 +53,31 @@ async def until(f, period, stop_event):
 
 async def jitter_until(f, period, jitter_factor, sliding, stop_event):
     stop_task = asyncio.ensure_future(stop_event.wait())
-    while not stop_event.is_set():
-        if jitter_factor > 0:
-            jittered_period = jitter(period, jitter_factor)
-        else:
-            jittered_period = period
-        if not sliding:
-            # TODO: Reuse
-            t = _time.Timer(jittered_period)
-        await f()
-        if sliding:
-            t = _time.Timer(jittered_period)
-
-        timer_task = asyncio.ensure_future(t.c.get())
-        await asyncio.wait([timer_task, stop_task], return_when=asyncio.FIRST_COMPLETED)
-        timer_task.cancel()
+    t = timer_task = None
+    try:
+        while not stop_event.is_set():
+            if jitter_factor > 0:
+                jittered_period = jitter(period, jitter_factor)
+            else:
+                jittered_period = period
+            if not sliding:
+                # TODO: Reuse
+                t = _time.Timer(jittered_period)
+            await f()
+            if sliding:
+                t = _time.Timer(jittered_period)
+
+            timer_task = asyncio.ensure_future(t.c.get())
+            await asyncio.wait(
+                [timer_task, stop_task], return_when=asyncio.FIRST_COMPLETED
+            )
+            timer_task.cancel()
+    finally:
+        stop_task.cancel()
+        if timer_task:
+            timer_task.cancel()
+        if t:
+            t.stop()
 
 
 def jitter(duration, max_factor):
-- 
2.43.0


From f556e46e0b6a69bb14e7db5a7ac16f8e66c520be Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:09:28 +0000
Subject: [PATCH 35/39] fix: start watches that are added to a running
 controller

---
 aiok8s/controller/controller.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aiok8s/controller/controller.py b/aiok8s/controller/controller.py
index 6e176b0..5feee09 100644
--- a/aiok8s/controller/controller.py
+++ b/aiok8s/controller/controller.py
@@ -40,6 +40,7 @@ class _Controller:
         self.jitter_period = 1
         self._mutex = asyncio.Lock()
         self._watches = []
+        self._started = False
 
     async def reconcile(self, request):
         return await self.do.reconcile(request)
@@ -52,6 +53,8 @@ class _Controller:
                 self.set_fields(predicate)
 
             self._watches.append(_WatchDescription(source, event_handler, predicates))
+            if self._started:
+                await source.start(event_handler, self.queue, *predicates)
 
     async def start(self):
         self.queue = self.make_queue()
@@ -74,6 +77,7 @@ class _Controller:
                     asyncio.ensure_future(aw())
                     for _ in range(self.max_concurrent_reconciles)
                 ]
+                self._started = True
 
             try:
                 await asyncio.gather(*map(asyncio.shield, tasks))
-- 
2.43.0


From fb248a890a789866fa2438ae81e41a9cf5df5f11 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:23:01 +0000
Subject: [PATCH 36/39] fix: lose no event of a fake watch when a read is
 cancelled

---
 aiok8s/watch/watch.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/aiok8s/watch/watch.py b/aiok8s/watch/watch.py
index ebe0b4d..d44a48d 100644
--- a/aiok8s/watch/watch.py
+++ b/aiok8s/watch/watch.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 import asyncio
+import collections
 import logging
 
 logger = logging.getLogger(__name__)
@@ -31,17 +32,27 @@ class FakeWatcher:
         self._stopped = asyncio.Event()
         self._task = asyncio.ensure_future(self._stopped.wait())
         self._result = result
+        self._unread = collections.deque()
         self._mutex = asyncio.Lock()
 
     def __aiter__(self):
         return self
 
     async def __anext__(self):
+        if self._unread:
+            self._result.task_done()
+            return self._unread.popleft()
         event = asyncio.ensure_future(self._result.get())
         while True:
-            done, _ = await asyncio.wait(
-                [event, self._task], return_when=asyncio.FIRST_COMPLETED
-            )
+            try:
+                done, _ = await asyncio.wait(
+                    [event, self._task], return_when=asyncio.FIRST_COMPLETED
+                )
+            except asyncio.CancelledError:
+                # the event is for the next read
+                if not event.cancel():
+                    self._unread.append(event.result())
+                raise
             if event in done:
                 self._result.task_done()
                 return await event
@@ -67,6 +78,7 @@ class FakeWatcher:
             self._stopped.clear()
             self._task = asyncio.ensure_future(self._stopped.wait())
             self._result = asyncio.Queue()
+            self._unread.clear()
 
     async def add(self, obj):
         await self.action(EventType.ADDED, obj)
-- 
2.43.0


From c60e143a50d19bc690c416b16e2ac57c721c4096 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:23:01 +0000
Subject: [PATCH 37/39] fix: end the reads of a fake watch that is reset right
 after it is stopped

---
 aiok8s/watch/watch.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/aiok8s/watch/watch.py b/aiok8s/watch/watch.py
index d44a48d..0fda43c 100644
--- a/aiok8s/watch/watch.py
+++ b/aiok8s/watch/watch.py
@@ -42,21 +42,22 @@ class FakeWatcher:
         if self._unread:
             self._result.task_done()
             return self._unread.popleft()
-        event = asyncio.ensure_future(self._result.get())
+        result, stopped = self._result, self._task
+        event = asyncio.ensure_future(result.get())
         while True:
             try:
                 done, _ = await asyncio.wait(
-                    [event, self._task], return_when=asyncio.FIRST_COMPLETED
+                    [event, stopped], return_when=asyncio.FIRST_COMPLETED
                 )
             except asyncio.CancelledError:
                 # the event is for the next read
-                if not event.cancel():
+                if not event.cancel() and result is self._result:
                     self._unread.append(event.result())
                 raise
             if event in done:
-                self._result.task_done()
+                result.task_done()
                 return await event
-            if self._stopped.is_set():
+            if stopped in done:
                 event.cancel()
                 raise StopAsyncIteration
 
-- 
2.43.0


From 4c5be18cc2d7421222b3be56d9b6b05005f5f429 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:50:43 +0000
Subject: [PATCH 38/39] fix: stop the listeners of an informer that is
 cancelled again while it stops

A second cancellation reached the processor before it had told its listeners
to stop, or their inner reads, and left them running.
---
 aiok8s/cache/shared_informer.py | 44 +++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/aiok8s/cache/shared_informer.py b/aiok8s/cache/shared_informer.py
index b0085e8..3aac2d1 100644
--- a/aiok8s/cache/shared_informer.py
+++ b/aiok8s/cache/shared_informer.py
@@ -154,10 +154,18 @@ class _SharedIndexInformer:
         try:
             await self._controller.run()
         finally:
-            async with self._started_lock:
-                self._stopped = True
-            processor_stop_event.set()
-            await task
+            stop_task = asyncio.ensure_future(self._stop(processor_stop_event))
+            try:
+                # Being cancelled again does not get in the way of stopping
+                await asyncio.shield(stop_task)
+            finally:
+                await stop_task
+                await task
+
+    async def _stop(self, processor_stop_event):
+        async with self._started_lock:
+            self._stopped = True
+        processor_stop_event.set()
 
     def has_synced(self):
         return bool(self._controller) and self._controller.has_synced()
@@ -277,11 +285,14 @@ class _SharedProcessor:
                 self._tasks.append(asyncio.ensure_future(listener._run()))
                 self._tasks.append(asyncio.ensure_future(listener._pop()))
             self._listeners_started = True
-        await stop_event.wait()
-        async with self._listeners_lock:
-            for listener in self._listeners:
-                listener._stop_add.set()
-            await asyncio.gather(*self._tasks)
+        try:
+            await stop_event.wait()
+        finally:
+            # Listeners are stopped even if this is cancelled
+            async with self._listeners_lock:
+                for listener in self._listeners:
+                    listener._stop_add.set()
+                await asyncio.gather(*self._tasks)
 
     def _should_resync(self):
         self._syncing_listeners = []
@@ -328,6 +339,7 @@ class _ProcessListener:
         next_queue = None
         notification = None
         stop_task = asyncio.ensure_future(self._stop_add.wait())
+        tasks = [stop_task]
         try:
             while True:
                 get_task = asyncio.ensure_future(get())
@@ -363,7 +375,8 @@ class _ProcessListener:
                     put_task.cancel()
         finally:
             self._stop_next.set()
-            stop_task.cancel()
+            for task in tasks:
+                task.cancel()
 
     async def _run(self):
         stop_next_task = asyncio.ensure_future(self._stop_next.wait())
@@ -376,9 +389,13 @@ class _ProcessListener:
         async def condition():
             while True:
                 get_task = asyncio.ensure_future(get())
-                await asyncio.wait(
-                    [get_task, stop_next_task], return_when=asyncio.FIRST_COMPLETED
-                )
+                try:
+                    await asyncio.wait(
+                        [get_task, stop_next_task], return_when=asyncio.FIRST_COMPLETED
+                    )
+                except asyncio.CancelledError:
+                    get_task.cancel()
+                    raise
                 if self._stop_next.is_set():
                     get_task.cancel()
                     return True
@@ -398,6 +415,7 @@ class _ProcessListener:
             try:
                 await wait.exponential_backoff(retry.default_retry, condition)
             except asyncio.CancelledError:
+                stop_next_task.cancel()
                 raise
             except Exception:
                 await asyncio.sleep(60)
-- 
2.43.0


From d4d49af87a4f8e7ab7e81f561aa763a4e4e8aa7d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 08:25:17 +0000
Subject: [PATCH 39/39] fix: ignore handlers offered while the listeners of an
 informer stop

---
 aiok8s/cache/shared_informer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aiok8s/cache/shared_informer.py b/aiok8s/cache/shared_informer.py
index 3aac2d1..a89d91d 100644
--- a/aiok8s/cache/shared_informer.py
+++ b/aiok8s/cache/shared_informer.py
@@ -128,7 +128,8 @@ class _SharedIndexInformer:
                 return
 
             async with self._block_deltas:
-                await self._processor._add_listener(listener)
+                if not await self._processor._add_listener(listener):
+                    return
                 for item in self._indexer.list():
                     await listener._add(_AddNotification(new_obj=item))
 
@@ -255,6 +256,7 @@ class _SharedProcessor:
     def __init__(self, clock):
         self._clock = clock
         self._listeners_started = False
+        self._listeners_stopped = False
         self._listeners_lock = asyncio.Lock()
         self._listeners = []
         self._syncing_listeners = []
@@ -262,10 +264,13 @@ class _SharedProcessor:
 
     async def _add_listener(self, listener):
         async with self._listeners_lock:
+            if self._listeners_stopped:
+                return False
             self._add_listener_locked(listener)
             if self._listeners_started:
                 self._tasks.append(asyncio.ensure_future(listener._run()))
                 self._tasks.append(asyncio.ensure_future(listener._pop()))
+            return True
 
     def _add_listener_locked(self, listener):
         self._listeners.append(listener)
@@ -290,6 +295,7 @@ class _SharedProcessor:
         finally:
             # Listeners are stopped even if this is cancelled
             async with self._listeners_lock:
+                self._listeners_stopped = True
                 for listener in self._listeners:
                     listener._stop_add.set()
                 await asyncio.gather(*self._tasks)
-- 
2.43.0

