From d21c5e2be0afde24c4ade3baf193d9fc572ebcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:57 +0000
Subject: [PATCH 01/59] fix: record the stream entry of due tasks so that
 cancel() and replace() can remove it

---
 src/docket/worker.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 567f714..fdd0c8d 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -192,7 +192,7 @@ async def _stream_due_tasks(
                     task[task_data[j]] = task_data[j+1]
                 end
 
-                redis.call('XADD', stream_key, '*',
+                local message_id = redis.call('XADD', stream_key, '*',
                     'key', task['key'],
                     'when', task['when'],
                     'function', task['function'],
@@ -203,9 +203,10 @@ async def _stream_due_tasks(
                 )
                 redis.call('DEL', hash_key)
 
-                -- Set run state to queued
+                -- Set run state to queued, and record where the task went so
+                -- that cancel() and replace() can find its stream entry
                 local run_key = docket_prefix .. ":runs:" .. task['key']
-                redis.call('HSET', run_key, 'state', 'queued')
+                redis.call('HSET', run_key, 'state', 'queued', 'stream_id', message_id)
 
                 -- Publish state change event to pub/sub
                 local channel = docket_prefix .. ":state:" .. task['key']
-- 
2.43.0


From 407dd71097199cbba8de3f8eb5d6e0ee73c20e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 02/59] fix: a superseded run must not reschedule itself over
 the newer schedule

---
 src/docket/execution.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index eeded38..de5b800 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -70,6 +70,7 @@ async def _schedule(
     is_immediate: Arg[bool],
     replace: Arg[bool],
     reschedule_message_id: Arg[bytes],
+    generation: Arg[int],
     worker_group_name: Arg[str],
     state_payload: Arg[str],
     message: Args[dict[bytes, bytes]],
@@ -115,6 +116,15 @@ async def _schedule(
         redis.call('XACK', stream_key, worker_group_name, reschedule_message_id)
         redis.call('XDEL', stream_key, reschedule_message_id)
 
+        -- A newer schedule of this key owns the runs hash (and possibly the
+        -- queue) by now: this run must not bring the old one back.
+        if generation > 0 then
+            local current = redis.call('HGET', runs_key, 'generation')
+            if current and tonumber(current) > generation then
+                return 'SUPERSEDED'
+            end
+        end
+
         -- Increment generation counter
         local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
         if generation_index then
@@ -730,11 +740,20 @@ class Execution:
                     is_immediate=is_immediate,
                     replace=replace,
                     reschedule_message_id=reschedule_message or b"",
+                    generation=self._generation,
                     worker_group_name=self.docket.worker_group_name,
                     state_payload=state_payload,
                     message=message,
                 )
 
+        if reply in (b"SUPERSEDED", "SUPERSEDED"):
+            # A newer schedule took the key over while this run was going on.
+            # Our stream message is retired and the newer schedule preserved.
+            if reschedule_message == self.message_id:
+                self._acked = True
+            self.disposition = Disposition.ALREADY_SCHEDULED
+            return self.disposition
+
         if reply in (b"EXISTS", "EXISTS"):
             # An existing schedule for this key remains untouched; leave local
             # state alone and do not publish a misleading state event.
-- 
2.43.0


From 117b07887b0e15492fa667407b2c9d7d9ba7e3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:45 +0000
Subject: [PATCH 03/59] fix: a superseded run must not overwrite the newer
 schedule's stored result

---
 src/docket/worker.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index fdd0c8d..0c5e0b7 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1134,7 +1134,12 @@ class Worker:
                     else:
                         # No handler or handler didn't handle - normal completion
                         result_key = None
-                        if result is not None and self.docket.execution_ttl:
+                        if (
+                            result is not None
+                            and self.docket.execution_ttl
+                            # the result under this key belongs to the newest schedule
+                            and not await execution.is_superseded()
+                        ):
                             # Serialize and store result
                             pickled_result = cloudpickle.dumps(result)  # type: ignore[arg-type]
                             # Base64-encode for JSON serialization
@@ -1215,7 +1220,11 @@ class Worker:
 
                     # Store exception in result_storage (only when not retrying)
                     result_key = None
-                    if self.docket.execution_ttl:
+                    if (
+                        self.docket.execution_ttl
+                        # the result under this key belongs to the newest schedule
+                        and not await execution.is_superseded()
+                    ):
                         pickled_exception = cloudpickle.dumps(e)  # type: ignore[arg-type]
                         # Base64-encode for JSON serialization
                         encoded_exception = base64.b64encode(pickled_exception).decode(
-- 
2.43.0


From decf3bb9e20b1b8e929fd15bb9326b74a4143fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 04/59] fix: clean up cancelled waiters on backends without
 HMGET

---
 src/docket/dependencies/_concurrency.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index 30ffa6c..17b74ba 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -734,9 +734,8 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
         """
         runs_key = f"{docket.prefix}:runs:{task_key}"
         async with docket.redis() as redis:
-            waiter_stream_b, waiter_entry_id_b = await redis.hmget(  # type: ignore[misc]
-                runs_key, "waiter_stream", "waiter_entry_id"
-            )
+            waiter_stream_b = await redis.hget(runs_key, "waiter_stream")  # type: ignore[misc]
+            waiter_entry_id_b = await redis.hget(runs_key, "waiter_entry_id")  # type: ignore[misc]
             if not waiter_stream_b or not waiter_entry_id_b:
                 return
             waiter_stream = waiter_stream_b.decode()
-- 
2.43.0


From 09ccb636b507fc216f7065a3f1b9e798eb40379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:45 +0000
Subject: [PATCH 05/59] fix: dropped waiters must not use up the capacity of a
 freed concurrency slot

---
 src/docket/dependencies/_concurrency.py | 86 ++++++++++++++-----------
 1 file changed, 49 insertions(+), 37 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index 17b74ba..9dddffe 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -197,9 +197,14 @@ async def _release_and_wake(
         end
     end
 
+    -- Every entry looked at leaves the waiter stream, and only the forwarded
+    -- ones use up capacity: a dropped waiter must not cost a live one its turn.
     local capacity = max_concurrent - redis.call('ZCARD', slots_key)
-    if capacity > 0 then
+    while capacity > 0 do
         local entries = redis.call('XRANGE', waiters_stream, '-', '+', 'COUNT', capacity)
+        if #entries == 0 then
+            break
+        end
         for _, entry in ipairs(entries) do
             local waiter_id = entry[1]
             local fields = entry[2]
@@ -251,6 +256,7 @@ async def _release_and_wake(
 
                 local payload = '{"type":"state","key":"' .. json_escape(waiter_task_key) .. '","state":"queued"}'
                 redis.call('PUBLISH', state_prefix .. waiter_task_key, payload)
+                capacity = capacity - 1
             end
         end
     end
@@ -320,50 +326,56 @@ async def _scavenge_and_wake(
     end
 
     local woken = 0
-    local entries = redis.call('XRANGE', waiters_stream, '-', '+', 'COUNT', capacity)
-    for _, entry in ipairs(entries) do
-        local waiter_id = entry[1]
-        local fields = entry[2]
-
-        local waiter_task_key
-        for i = 1, #fields, 2 do
-            if fields[i] == 'key' then
-                waiter_task_key = fields[i + 1]
-                break
-            end
+    while capacity > 0 do
+        local entries = redis.call('XRANGE', waiters_stream, '-', '+', 'COUNT', capacity)
+        if #entries == 0 then
+            break
         end
+        for _, entry in ipairs(entries) do
+            local waiter_id = entry[1]
+            local fields = entry[2]
 
-        local runs_key = runs_prefix .. waiter_task_key
-
-        -- Skip cancelled/superseded waiters: drop the entry without forwarding.
-        local current_state = redis.call('HGET', runs_key, 'state')
-        local safeguard_key = '__safeguard__:' .. waiter_task_key
-        if current_state ~= 'scheduled' then
-            redis.call('XDEL', waiters_stream, waiter_id)
-            redis.call('ZREM', queue_key, safeguard_key)
-            redis.call('DEL', parked_prefix .. safeguard_key)
-            redis.call('DEL', runs_prefix .. safeguard_key)
-        else
-            local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
+            local waiter_task_key
             for i = 1, #fields, 2 do
-                if fields[i] == 'generation' then
-                    fields[i + 1] = tostring(new_gen)
+                if fields[i] == 'key' then
+                    waiter_task_key = fields[i + 1]
+                    break
                 end
             end
 
-            local main_id = redis.call('XADD', stream_key, '*', unpack(fields))
-            redis.call('XDEL', waiters_stream, waiter_id)
-            redis.call('HSET', runs_key, 'state', 'queued', 'stream_id', main_id)
-            redis.call('HDEL', runs_key, 'waiter_stream', 'waiter_entry_id')
+            local runs_key = runs_prefix .. waiter_task_key
+
+            -- Skip cancelled/superseded waiters: drop the entry without forwarding.
+            local current_state = redis.call('HGET', runs_key, 'state')
+            local safeguard_key = '__safeguard__:' .. waiter_task_key
+            if current_state ~= 'scheduled' then
+                redis.call('XDEL', waiters_stream, waiter_id)
+                redis.call('ZREM', queue_key, safeguard_key)
+                redis.call('DEL', parked_prefix .. safeguard_key)
+                redis.call('DEL', runs_prefix .. safeguard_key)
+            else
+                local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
+                for i = 1, #fields, 2 do
+                    if fields[i] == 'generation' then
+                        fields[i + 1] = tostring(new_gen)
+                    end
+                end
+
+                local main_id = redis.call('XADD', stream_key, '*', unpack(fields))
+                redis.call('XDEL', waiters_stream, waiter_id)
+                redis.call('HSET', runs_key, 'state', 'queued', 'stream_id', main_id)
+                redis.call('HDEL', runs_key, 'waiter_stream', 'waiter_entry_id')
 
-            -- Cancel the safeguard task this waiter scheduled on park.
-            redis.call('ZREM', queue_key, safeguard_key)
-            redis.call('DEL', parked_prefix .. safeguard_key)
-            redis.call('DEL', runs_prefix .. safeguard_key)
+                -- Cancel the safeguard task this waiter scheduled on park.
+                redis.call('ZREM', queue_key, safeguard_key)
+                redis.call('DEL', parked_prefix .. safeguard_key)
+                redis.call('DEL', runs_prefix .. safeguard_key)
 
-            local payload = '{"type":"state","key":"' .. json_escape(waiter_task_key) .. '","state":"queued"}'
-            redis.call('PUBLISH', state_prefix .. waiter_task_key, payload)
-            woken = woken + 1
+                local payload = '{"type":"state","key":"' .. json_escape(waiter_task_key) .. '","state":"queued"}'
+                redis.call('PUBLISH', state_prefix .. waiter_task_key, payload)
+                woken = woken + 1
+                capacity = capacity - 1
+            end
         end
     end
 
-- 
2.43.0


From c111503336f661cc0f16163894e6c2bc9d97c945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 06/59] fix: a parked task keeps its key, and only the key's
 current waiter entry is woken or cleaned up

---
 src/docket/dependencies/_concurrency.py | 46 ++++++++++++++++++++++---
 src/docket/execution.py                 | 12 +++++++
 2 files changed, 54 insertions(+), 4 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index 9dddffe..66e5772 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -52,6 +52,7 @@ async def _acquire_or_park(
     max_concurrent: Arg[int],
     task_key: Arg[str],
     current_time: Arg[float],
+    generation: Arg[int],
     is_redelivery: Arg[bool],
     stale_threshold: Arg[float],
     key_ttl: Arg[int],
@@ -68,6 +69,18 @@ async def _acquire_or_park(
     -- into the waiter stream; caller raises ConcurrencyBlocked(handled=True)
     -- so the worker takes no further action).
 
+    -- If a newer schedule of this key (a replace, or a cancel and add) took
+    -- over since this run was claimed, retire its message without touching
+    -- the newer schedule.  Returns -1.
+    if generation > 0 then
+        local current = redis.call('HGET', runs_key, 'generation')
+        if current and tonumber(current) > generation then
+            redis.call('XACK', stream_key, worker_group_name, message_id)
+            redis.call('XDEL', stream_key, message_id)
+            return -1
+        end
+    end
+
     -- If this task already has a slot (previous delivery attempt), only a
     -- redelivery with a stale original holder can take it over.  Otherwise we
     -- must not run a second time alongside a still-live peer.
@@ -128,8 +141,10 @@ async def _acquire_or_park(
 
     -- Record the waiter's location so the dependency's cancel subscriber can
     -- find and XDEL the waiter entry when the task transitions to 'cancelled'.
+    -- 'known' keeps add() deduplicating against the parked task.
     redis.call('HSET', runs_key,
         'state', 'scheduled',
+        'known', current_time,
         'waiter_stream', waiters_stream,
         'waiter_entry_id', waiter_entry_id,
         'function', function_name,
@@ -228,7 +243,11 @@ async def _release_and_wake(
             -- entry without forwarding.
             local current_state = redis.call('HGET', runs_key, 'state')
             local safeguard_key = '__safeguard__:' .. waiter_task_key
-            if current_state ~= 'scheduled' then
+            if redis.call('HGET', runs_key, 'waiter_entry_id') ~= waiter_id then
+                -- A newer schedule of the key took over; it (and its own
+                -- safeguard, if it is parked again) is none of our business.
+                redis.call('XDEL', waiters_stream, waiter_id)
+            elseif current_state ~= 'scheduled' then
                 redis.call('XDEL', waiters_stream, waiter_id)
                 -- Cancelled/superseded waiter: drop its safeguard backstop too.
                 redis.call('ZREM', queue_key, safeguard_key)
@@ -348,7 +367,11 @@ async def _scavenge_and_wake(
             -- Skip cancelled/superseded waiters: drop the entry without forwarding.
             local current_state = redis.call('HGET', runs_key, 'state')
             local safeguard_key = '__safeguard__:' .. waiter_task_key
-            if current_state ~= 'scheduled' then
+            if redis.call('HGET', runs_key, 'waiter_entry_id') ~= waiter_id then
+                -- A newer schedule of the key took over; it (and its own
+                -- safeguard, if it is parked again) is none of our business.
+                redis.call('XDEL', waiters_stream, waiter_id)
+            elseif current_state ~= 'scheduled' then
                 redis.call('XDEL', waiters_stream, waiter_id)
                 redis.call('ZREM', queue_key, safeguard_key)
                 redis.call('DEL', parked_prefix .. safeguard_key)
@@ -399,12 +422,19 @@ async def _cancel_cleanup(
     progress_key: Key[str],
     runs_key: Key[str],
     waiter_entry_id: Arg[str],
-) -> None:
+) -> int:
     """
     -- Atomically tear down a cancelled task's waiter footprint.  Invoked
     -- by ConcurrencyLimit's pubsub-driven cancel subscriber after
     -- Docket.cancel flips the task to 'cancelled'.
 
+    -- The key may have been scheduled (and parked) again since the cancel:
+    -- leave a live waiter alone.  Returns 1 if it cleaned up, 0 if not.
+    if redis.call('HGET', runs_key, 'waiter_entry_id') ~= waiter_entry_id
+        or redis.call('HGET', runs_key, 'state') == 'scheduled' then
+        return 0
+    end
+
     redis.call('XDEL', waiters_stream, waiter_entry_id)
     if redis.call('XLEN', waiters_stream) == 0 then
         redis.call('DEL', waiters_stream)
@@ -416,6 +446,8 @@ async def _cancel_cleanup(
     redis.call('DEL', progress_key)
 
     redis.call('HDEL', runs_key, 'waiter_stream', 'waiter_entry_id')
+
+    return 1
     """
     ...
 
@@ -594,6 +626,7 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
                 max_concurrent=self.max_concurrent,
                 task_key=execution.key,
                 current_time=current_time,
+                generation=execution.generation,
                 is_redelivery=execution.redelivered,
                 stale_threshold=stale_threshold,
                 key_ttl=key_ttl,
@@ -604,6 +637,9 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
                 message=message,
             )
 
+        if int(result) < 0:
+            raise ConcurrencyBlocked(execution, concurrency_key, self.max_concurrent)
+
         if not bool(result):  # pragma: no branch
             logger.debug(
                 "⏳ Task %s parked on waiter stream %s",
@@ -752,13 +788,15 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
                 return
             waiter_stream = waiter_stream_b.decode()
             waiter_entry_id = waiter_entry_id_b.decode()
-            await _cancel_cleanup(
+            cleaned = await _cancel_cleanup(
                 redis,
                 waiters_stream=waiter_stream,
                 progress_key=f"{docket.prefix}:progress:{task_key}",
                 runs_key=runs_key,
                 waiter_entry_id=waiter_entry_id,
             )
+        if not int(cleaned):
+            return
         # Drop the safeguard task this waiter scheduled at park time.
         # Cancelling routes through the same cancel pubsub we're subscribed
         # to, but the resulting cleanup callback for the safeguard's own
diff --git a/src/docket/execution.py b/src/docket/execution.py
index de5b800..5cf5398 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -206,6 +206,18 @@ async def _schedule(
         end
     end
 
+    -- If the key's previous schedule is parked on a waiter stream (replaced,
+    -- or cancelled but not cleaned up yet), it must not be woken any more.
+    local waiter_stream = redis.call('HGET', runs_key, 'waiter_stream')
+    local waiter_entry_id = redis.call('HGET', runs_key, 'waiter_entry_id')
+    if waiter_stream and waiter_entry_id then
+        redis.call('XDEL', waiter_stream, waiter_entry_id)
+        if redis.call('XLEN', waiter_stream) == 0 then
+            redis.call('DEL', waiter_stream)
+        end
+        redis.call('HDEL', runs_key, 'waiter_stream', 'waiter_entry_id')
+    end
+
     -- Increment generation counter
     local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
     if generation_index then
-- 
2.43.0


From 8864e28253a16bc94f3f98f4f9f16cc92f495df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 07/59] fix: the end of an older run must not make a newer run
 of its key uncancellable

---
 src/docket/worker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 0c5e0b7..75647ca 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -696,7 +696,9 @@ class Worker:
             for task in completed_tasks:
                 message_id = active_tasks.pop(task)
                 execution = task_executions.pop(task)
-                self._tasks_by_key.pop(execution.key, None)
+                # a newer run of the same key may have taken the entry over
+                if self._tasks_by_key.get(execution.key) is task:
+                    del self._tasks_by_key[execution.key]
                 try:
                     await task
                 except AdmissionBlocked as e:
-- 
2.43.0


From 8cccca60672fb97712bc478fdf6981ea63d63db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 08/59] fix: cancelling a task while it is being claimed must
 not stop the worker

---
 src/docket/worker.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 75647ca..dc81696 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -723,6 +723,13 @@ class Worker:
                             extra=log_context,
                         )
                         await e.execution.mark_as_cancelled()
+                except asyncio.CancelledError:
+                    # docket.cancel() caught the task outside the part of
+                    # _execute that handles it, e.g. while it was being
+                    # claimed.  That is the end of the task, not of the worker.
+                    if not task.cancelled():  # pragma: no cover
+                        raise
+                    await execution.mark_as_cancelled()
 
                 # Safety net: if nothing inside _execute or these except
                 # handlers acked the stream message (e.g. a custom
-- 
2.43.0


From 78f4a738598a6ad883d5f4c61d659175fd56ae90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 09/59] fix: a task cancelled between its delivery and its
 claim must not run, nor be rescheduled

---
 src/docket/execution.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 5cf5398..ebf9e92 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -117,12 +117,16 @@ async def _schedule(
         redis.call('XDEL', stream_key, reschedule_message_id)
 
         -- A newer schedule of this key owns the runs hash (and possibly the
-        -- queue) by now: this run must not bring the old one back.
+        -- queue) by now, or the task has been cancelled: this run must not
+        -- bring the old one back.
         if generation > 0 then
             local current = redis.call('HGET', runs_key, 'generation')
             if current and tonumber(current) > generation then
                 return 'SUPERSEDED'
             end
+            if redis.call('HGET', runs_key, 'state') == 'cancelled' then
+                return 'SUPERSEDED'
+            end
         end
 
         -- Increment generation counter
@@ -305,6 +309,14 @@ async def _claim(
             end
             return 'SUPERSEDED'
         end
+        -- Cancelled after it was handed to this worker, but before this claim
+        if redis.call('HGET', runs_key, 'state') == 'cancelled' then
+            if message_id ~= '' then
+                redis.call('XACK', stream_key, worker_group_name, message_id)
+                redis.call('XDEL', stream_key, message_id)
+            end
+            return 'SUPERSEDED'
+        end
     end
 
     -- Update execution state to running
-- 
2.43.0


From 9753494b99d117925f146d9eab5443b8c48d7c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 10/59] fix: a late lease renewal must not bring back a
 released concurrency slot

---
 src/docket/dependencies/_concurrency.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index 66e5772..e80a6e2 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -844,9 +844,12 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
             try:
                 async with docket.redis() as redis:
                     current_time = datetime.now(timezone.utc).timestamp()
+                    # Only refresh a slot we still hold: a renewal still on its
+                    # way when the slot is released must not bring it back.
                     await redis.zadd(
                         self._concurrency_key,
                         {self._task_key: current_time},
+                        xx=True,
                     )
                     await redis.expire(self._concurrency_key, key_ttl)
             except Exception:  # pragma: no cover
-- 
2.43.0


From 5a80db0bfeb842334a3793085c33e480dd179489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:06 +0000
Subject: [PATCH 11/59] fix: keep guarding a parked task until it has been
 woken

---
 src/docket/dependencies/_concurrency.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index e80a6e2..df48ee2 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -917,3 +917,18 @@ async def _safeguard_wake(waiter_stream: str, max_concurrent: int) -> None:
             state_prefix=f"{docket.prefix}:state:",
             parked_prefix=f"{docket.prefix}:",
         )
+
+        # If our own waiter is still parked (the slots are held by live tasks),
+        # keep watching: nothing else would recover it if a holder dies later.
+        safeguard_key = current_execution.get().key
+        task_key = safeguard_key.removeprefix("__safeguard__:")
+        still_parked = await redis.hget(  # type: ignore[misc]
+            docket.runs_key(task_key), "waiter_entry_id"
+        )
+
+    if still_parked:
+        await docket.replace(
+            _safeguard_wake,
+            when=datetime.now(timezone.utc) + redelivery_timeout,
+            key=safeguard_key,
+        )(waiter_stream=waiter_stream, max_concurrent=max_concurrent)
-- 
2.43.0


From a4290a7f81f38f9f097271ae45bcf3c0865836a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:18 +0000
Subject: [PATCH 12/59] fix: a worker whose connection fails must not hang on
 its cancellation listener

---
 src/docket/worker.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index dc81696..65ffe58 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -757,7 +757,12 @@ class Worker:
                     if cm is not None:
                         await dependency_stack.enter_async_context(cm)
 
-                async with TaskGroup() as infra:
+                async with TaskGroup() as infra, AsyncExitStack() as infra_stack:
+                    # However the loop below ends, tell the background tasks
+                    # before the TaskGroup waits for them: the cancellation
+                    # listener may lose its CancelledError to a connection
+                    # error while closing its subscription.
+                    infra_stack.callback(session.stopping.set)
                     # Start cancellation listener and wait for it to be ready
                     infra.create_task(
                         self._cancellation_listener(),
@@ -829,8 +834,6 @@ class Worker:
                             disconnect = error
                             break
 
-                    session.stopping.set()
-
             # A disconnection in the poll loop above leaves the TaskGroup intact
             # (no exception escaped it), so re-raise it here as a bare
             # ConnectionError for _run to catch and reconnect on.
-- 
2.43.0


From 6a752a591cb3d5b19db834edf67bf4adcaf724a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:39 +0000
Subject: [PATCH 13/59] fix: a strike on an entire task holds whatever
 parameter strikes come and go

---
 src/docket/strikelist.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/docket/strikelist.py b/src/docket/strikelist.py
index 8d9c477..ad5a318 100644
--- a/src/docket/strikelist.py
+++ b/src/docket/strikelist.py
@@ -169,6 +169,7 @@ class StrikeList:
 
     task_strikes: TaskStrikes
     parameter_strikes: ParameterStrikes
+    _stricken_functions: set[str]
     _conditions: list[Callable[["Execution"], bool]]
     _redis: RedisConnection | None
     _monitor_task: asyncio.Task[NoReturn] | None
@@ -196,6 +197,7 @@ class StrikeList:
         self.enable_internal_instrumentation = enable_internal_instrumentation
         self.task_strikes = {}
         self.parameter_strikes = {}
+        self._stricken_functions = set()
         self._conditions = [self._matches_task_or_parameter_strike]
         self._redis = RedisConnection(url) if url else None
         self._monitor_task = None
@@ -385,7 +387,7 @@ class StrikeList:
 
         # Check if the entire task is stricken (without parameter conditions)
         task_strikes = self.task_strikes.get(function_name, {})
-        if function_name in self.task_strikes and not task_strikes:
+        if function_name in self._stricken_functions:
             return True
 
         signature = get_signature(execution.function)
@@ -481,10 +483,10 @@ class StrikeList:
             parameter_strikes.add((strike.operator, strike.value))
 
         elif strike.function:
-            try:
-                task_strikes = self.task_strikes[strike.function]
-            except KeyError:
-                task_strikes = self.task_strikes[strike.function] = {}
+            # Kept apart from the parameter strikes, which come and go without
+            # affecting a strike on the entire task.
+            self._stricken_functions.add(strike.function)
+            self.task_strikes.setdefault(strike.function, {})
 
         elif strike.parameter:  # pragma: no branch
             try:
@@ -514,16 +516,17 @@ class StrikeList:
 
             if not parameter_strikes:
                 task_strikes.pop(restore.parameter, None)
-                if not task_strikes:
+                if not task_strikes and restore.function not in self._stricken_functions:
                     self.task_strikes.pop(restore.function, None)
 
         elif restore.function:
+            self._stricken_functions.discard(restore.function)
             try:
                 task_strikes = self.task_strikes[restore.function]
             except KeyError:
                 return
 
-            # If there are no parameter strikes, this was a full task strike
+            # Any parameter strikes remain in effect
             if not task_strikes:
                 self.task_strikes.pop(restore.function, None)
 
-- 
2.43.0


From 06dd9a9b9405fb1f8fb41cbea5c1b544d259dda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:56 +0000
Subject: [PATCH 14/59] fix: a late local update must not undo newer strike
 instructions

---
 src/docket/strikelist.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/docket/strikelist.py b/src/docket/strikelist.py
index ad5a318..104424d 100644
--- a/src/docket/strikelist.py
+++ b/src/docket/strikelist.py
@@ -131,6 +131,14 @@ ParameterStrikes = dict[str, set[MinimalStrike]]
 TaskStrikes = dict[str, ParameterStrikes]
 
 
+def _stream_position(message_id: bytes | str) -> tuple[int, int]:
+    """The position of a message in its stream, as a comparable value."""
+    if isinstance(message_id, bytes):
+        message_id = message_id.decode()
+    milliseconds, _, sequence = message_id.partition("-")
+    return int(milliseconds), int(sequence or 0)
+
+
 class StrikeList:
     """A strike list that manages conditions for blocking task execution.
 
@@ -170,6 +178,7 @@ class StrikeList:
     task_strikes: TaskStrikes
     parameter_strikes: ParameterStrikes
     _stricken_functions: set[str]
+    _position: tuple[int, int]
     _conditions: list[Callable[["Execution"], bool]]
     _redis: RedisConnection | None
     _monitor_task: asyncio.Task[NoReturn] | None
@@ -198,6 +207,7 @@ class StrikeList:
         self.task_strikes = {}
         self.parameter_strikes = {}
         self._stricken_functions = set()
+        self._position = (0, 0)
         self._conditions = [self._matches_task_or_parameter_strike]
         self._redis = RedisConnection(url) if url else None
         self._monitor_task = None
@@ -304,9 +314,16 @@ class StrikeList:
             )
 
         async with self._redis.client() as r:
-            await r.xadd(self.strike_key, instruction.as_message())  # type: ignore[arg-type]
+            message_id: bytes = await r.xadd(
+                self.strike_key,
+                instruction.as_message(),  # type: ignore[arg-type]
+            )
 
-        self.update(instruction)
+        # If the monitor has already got past this instruction, it may have seen
+        # newer ones too, which must not be undone.  Otherwise it will apply this
+        # one again in its turn.
+        if _stream_position(message_id) > self._position:
+            self.update(instruction)
 
     async def strike(
         self,
@@ -603,6 +620,7 @@ class StrikeList:
         for _, messages in streams:
             for message_id, message in messages:
                 last_id = message_id
+                self._position = _stream_position(message_id)
                 instruction = StrikeInstruction.from_message(message)
                 self.update(instruction)
                 logger.info(
-- 
2.43.0


From df906ba19e97b56a7b2d397fa805c9fe18b7f3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:15 +0000
Subject: [PATCH 15/59] fix: exponential retries must not give up when the
 doubling overflows

Computing 2**(attempt-1) times the delay raised OverflowError from the 48th
attempt on, which failed a task that was to be retried forever.
---
 src/docket/dependencies/_retry.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/docket/dependencies/_retry.py b/src/docket/dependencies/_retry.py
index 6f3592b..8daa2b6 100644
--- a/src/docket/dependencies/_retry.py
+++ b/src/docket/dependencies/_retry.py
@@ -205,7 +205,12 @@ class ExponentialRetry(Retry):
 
         if execution.attempt > 1:
             backoff_factor = 2 ** (execution.attempt - 1)
-            calculated_delay = self.delay * backoff_factor
+
+            try:
+                calculated_delay = self.delay * backoff_factor
+            except OverflowError:
+                # Retrying forever, the doubling outgrows what a timedelta holds
+                calculated_delay = self.maximum_delay
 
             if calculated_delay > self.maximum_delay:
                 retry.delay = self.maximum_delay
-- 
2.43.0


From 9735baead61ad23c25366c9f4be39ec822dd57a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:03 +0000
Subject: [PATCH 16/59] fix: a new schedule must not inherit the expiry of its
 key's last run

A run's record is given a TTL when the run ends.  Scheduling the key again
left that TTL in place, so a schedule still waiting (or running) when it
elapsed lost its record and was dropped as superseded.  The previous run's
result and error carried over as well.
---
 src/docket/execution.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index ebf9e92..7a29432 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -222,8 +222,12 @@ async def _schedule(
         redis.call('HDEL', runs_key, 'waiter_stream', 'waiter_entry_id')
     end
 
-    -- Increment generation counter
-    local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
+    -- Increment generation counter and start a fresh record: neither the expiry
+    -- set when the key's last run ended (which would drop this schedule while
+    -- it waits or runs) nor that run's outcome may carry over.
+    local new_gen = (tonumber(redis.call('HGET', runs_key, 'generation')) or 0) + 1
+    redis.call('DEL', runs_key)
+    redis.call('HSET', runs_key, 'generation', new_gen)
     if generation_index then
         message[generation_index] = tostring(new_gen)
     end
-- 
2.43.0


From e081a1c6a45efeae80eac01bb29d89b160c9d205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:03 +0000
Subject: [PATCH 17/59] fix: the expiry of a cancelled task must not fall on
 the key's next schedule

cancel() expired or deleted the record after the cancellation script had
run, by which time the key may have been scheduled again.
---
 src/docket/docket.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index ad8e775..e094fc5 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -76,6 +76,7 @@ async def _cancel_task(
     progress_key: Key[str],
     task_key: Arg[str],
     completed_at: Arg[str],
+    ttl_seconds: Arg[int],
 ) -> bytes:
     """
     -- TODO: Remove known_key / parked_key / stream_id_key handling in
@@ -113,6 +114,15 @@ async def _cancel_task(
         redis.call('HSET', runs_key, 'state', 'cancelled', 'completed_at', completed_at)
     end
 
+    -- Apply TTL or delete the tombstone (execution_ttl=0 means no
+    -- observability).  Done here, as the key may be scheduled again as soon as
+    -- this script has run.
+    if ttl_seconds > 0 then
+        redis.call('EXPIRE', runs_key, ttl_seconds)
+    else
+        redis.call('DEL', runs_key)
+    end
+
     return 'OK'
     """
     ...
@@ -766,16 +776,9 @@ class Docket(DocketSnapshotMixin):
             progress_key=self.key(f"progress:{key}"),
             task_key=key,
             completed_at=completed_at,
+            ttl_seconds=int(self.execution_ttl.total_seconds()),
         )
 
-        # Apply TTL or delete tombstone based on execution_ttl
-        if self.execution_ttl:
-            ttl_seconds = int(self.execution_ttl.total_seconds())
-            await redis.expire(task_runs_key, ttl_seconds)
-        else:
-            # execution_ttl=0 means no observability - delete tombstone immediately
-            await redis.delete(task_runs_key)
-
     async def strike(
         self,
         function: Callable[P, Awaitable[R]] | str | None = None,
-- 
2.43.0


From 48c5c5efec2fd3b6bd8405d161b50c2521208e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 18/59] fix: the end of a perpetual run must not undo a newer
 schedule of its key

The check for a newer schedule and the scheduling of the successor were
separate operations: a replace() (or cancel()) between the two was undone by
the successor.  A run that cancelled itself cancelled even a newer schedule
made by someone else.
---
 src/docket/dependencies/_perpetual.py | 48 +++++++++++++++++----------
 src/docket/docket.py                  | 22 ++++++++++--
 src/docket/execution.py               | 17 ++++++++++
 3 files changed, 68 insertions(+), 19 deletions(-)

diff --git a/src/docket/dependencies/_perpetual.py b/src/docket/dependencies/_perpetual.py
index 7e885ed..ab15480 100644
--- a/src/docket/dependencies/_perpetual.py
+++ b/src/docket/dependencies/_perpetual.py
@@ -100,14 +100,42 @@ class Perpetual(CompletionHandler["Perpetual"]):
 
     async def on_complete(self, execution: Execution, outcome: TaskOutcome) -> bool:
         """Handle completion by scheduling the next execution."""
+        from ..execution import Disposition, predecessor_generation
+
         if self.cancelled:
             docket = current_docket.get()
             async with docket.redis() as redis:
-                await docket._cancel(redis, execution.key)
+                await docket._cancel(
+                    redis, execution.key, generation=execution.generation
+                )
             return False
 
-        if await execution.is_superseded():
-            worker = current_worker.get()
+        docket = current_docket.get()
+        worker = current_worker.get()
+
+        if self._next_when:
+            when = self._next_when
+        else:
+            now = datetime.now(timezone.utc)
+            when = max(now, now + self.every - outcome.duration)
+
+        superseded = await execution.is_superseded()
+        if not superseded:
+            # The key may be scheduled anew or cancelled at any moment, so the
+            # successor is only accepted while this run is still the current one.
+            token = predecessor_generation.set(execution.generation)
+            try:
+                successor = await docket.replace(
+                    execution.function, when, execution.key
+                )(
+                    *self.args,
+                    **self.kwargs,
+                )
+            finally:
+                predecessor_generation.reset(token)
+            superseded = successor.disposition is Disposition.ALREADY_SCHEDULED
+
+        if superseded:
             TASKS_SUPERSEDED.add(
                 1,
                 {
@@ -123,20 +151,6 @@ class Perpetual(CompletionHandler["Perpetual"]):
             )
             return True
 
-        docket = current_docket.get()
-        worker = current_worker.get()
-
-        if self._next_when:
-            when = self._next_when
-        else:
-            now = datetime.now(timezone.utc)
-            when = max(now, now + self.every - outcome.duration)
-
-        await docket.replace(execution.function, when, execution.key)(
-            *self.args,
-            **self.kwargs,
-        )
-
         TASKS_PERPETUATED.add(1, {**worker.labels(), **execution.general_labels()})
 
         if outcome.exception:
diff --git a/src/docket/docket.py b/src/docket/docket.py
index e094fc5..ae419e7 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -43,6 +43,7 @@ from .execution import (
     Disposition,
     Execution,
     TaskFunction,
+    predecessor_generation,
 )
 from .instrumentation import (
     TASKS_ADDED,
@@ -77,11 +78,20 @@ async def _cancel_task(
     task_key: Arg[str],
     completed_at: Arg[str],
     ttl_seconds: Arg[int],
+    generation: Arg[int],
 ) -> bytes:
     """
     -- TODO: Remove known_key / parked_key / stream_id_key handling in
     -- v0.14.0 (legacy key locations).
 
+    -- A run ending its own chain leaves a newer schedule of the key alone
+    if generation > 0 then
+        local current = redis.call('HGET', runs_key, 'generation')
+        if current and tonumber(current) > generation then
+            return 'SUPERSEDED'
+        end
+    end
+
     -- Get stream ID (check new location first, then legacy)
     local message_id = redis.call('HGET', runs_key, 'stream_id')
 
@@ -520,6 +530,7 @@ class Docket(DocketSnapshotMixin):
                 when,
                 attempt=1,
                 function_name=function_name,
+                generation=predecessor_generation.get(),
             )
 
             with tracer.start_as_current_span(
@@ -555,6 +566,9 @@ class Docket(DocketSnapshotMixin):
                 await execution.schedule(replace=True)
                 span.set_attribute("docket.disposition", execution.disposition.value)
 
+            if execution.disposition is not Disposition.SCHEDULED:
+                return execution
+
             TASKS_REPLACED.add(1, {**self.labels(), **execution.general_labels()})
             TASKS_CANCELLED.add(1, {**self.labels(), **execution.general_labels()})
             TASKS_SCHEDULED.add(1, {**self.labels(), **execution.general_labels()})
@@ -747,8 +761,11 @@ class Docket(DocketSnapshotMixin):
             if "BUSYGROUP" not in str(e):
                 raise  # pragma: no cover
 
-    async def _cancel(self, redis: RedisClient, key: str) -> None:
-        """Cancel a task atomically.
+    async def _cancel(
+        self, redis: RedisClient, key: str, generation: int = 0
+    ) -> None:
+        """Cancel a task atomically, unless ``generation`` is given and the key
+        has been scheduled anew since.
 
         Handles cancellation regardless of task location:
         - From the stream (using stored message ID)
@@ -777,6 +794,7 @@ class Docket(DocketSnapshotMixin):
             task_key=key,
             completed_at=completed_at,
             ttl_seconds=int(self.execution_ttl.total_seconds()),
+            generation=generation,
         )
 
     async def strike(
diff --git a/src/docket/execution.py b/src/docket/execution.py
index 7a29432..12bffde 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -5,6 +5,7 @@ import inspect
 import json
 import logging
 from contextlib import contextmanager
+from contextvars import ContextVar
 from datetime import datetime, timedelta, timezone
 from typing import (
     TYPE_CHECKING,
@@ -50,6 +51,12 @@ class ExecutionCancelled(Exception):
     pass
 
 
+# Set while a run schedules its own successor with Docket.replace(): the
+# generation which must still be the key's current one for that to take effect.
+predecessor_generation: ContextVar[int] = ContextVar(
+    "predecessor_generation", default=0
+)
+
 TaskFunction = Callable[..., Awaitable[Any]]
 Message = dict[bytes, bytes]
 
@@ -174,6 +181,16 @@ async def _schedule(
 
     -- Handle replacement: cancel existing task if needed
     if replace then
+        -- A run scheduling its own successor (generation > 0) must not replace
+        -- a newer schedule of the key, nor bring a cancelled task back.
+        if generation > 0 then
+            local current = redis.call('HGET', runs_key, 'generation')
+            if not current or tonumber(current) > generation
+                or redis.call('HGET', runs_key, 'state') == 'cancelled' then
+                return 'SUPERSEDED'
+            end
+        end
+
         -- Get stream ID from runs hash (check new location first)
         local existing_message_id = redis.call('HGET', runs_key, 'stream_id')
 
-- 
2.43.0


From 1de37b390c6f1f9f9a8813f071d11df48d686c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 19/59] fix: a cron task is first scheduled for the next
 instant from now, not from its declaration

The iterator is created when the task is declared; a worker started
later scheduled the task for an instant that had already passed.  Also
skip instants not later than the previous one, which CronSim yields
around clock changes.
---
 src/docket/dependencies/_cron.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/docket/dependencies/_cron.py b/src/docket/dependencies/_cron.py
index abb99c8..28238a0 100644
--- a/src/docket/dependencies/_cron.py
+++ b/src/docket/dependencies/_cron.py
@@ -64,6 +64,7 @@ class Cron(Perpetual):
     tz: tzinfo
 
     _iterator: CronSim
+    _latest: datetime
 
     def __init__(
         self,
@@ -89,7 +90,12 @@ class Cron(Perpetual):
         super().__init__(automatic=automatic)
         self.expression = VIXIE_KEYWORDS.get(expression, expression)
         self.tz = tz
-        self._iterator = CronSim(self.expression, datetime.now(self.tz))
+        self._restart()
+
+    def _restart(self) -> None:
+        """Start over from the current time."""
+        self._latest = datetime.now(timezone.utc)
+        self._iterator = CronSim(self.expression, self._latest.astimezone(self.tz))
 
     async def __aenter__(self) -> Cron:
         execution = current_execution.get()
@@ -100,11 +106,19 @@ class Cron(Perpetual):
 
     def next_time(self) -> datetime:
         """Return the next matching cron time from the underlying iterator."""
-        return next(self._iterator)
+        when = next(self._iterator)
+        # Around clock changes, distinct local times may denote one instant, and
+        # a local time that occurs twice denotes the earlier instant.
+        while when.astimezone(timezone.utc) <= self._latest:
+            when = next(self._iterator)
+        self._latest = when.astimezone(timezone.utc)
+        return when
 
     @property
     def initial_when(self) -> datetime:
         """Return the next cron time for initial scheduling."""
+        # This may be long after the task was declared
+        self._restart()
         return self.next_time()
 
     async def on_complete(self, execution: Execution, outcome: TaskOutcome) -> bool:
-- 
2.43.0


From 189930b4532e60deca4ed7b6f8b9c26e30adb5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 20/59] fix: per-parameter controls must see arguments passed
 by position or by default

Cooldown, Debounce and RateLimit on a parameter used None for an argument
passed by position or left to its default, so that unrelated calls shared
one limit.  ConcurrencyLimit failed the task when the argument was left to
its default.
---
 src/docket/dependencies/_resolution.py | 14 +++++++++++---
 src/docket/execution.py                |  1 +
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/docket/dependencies/_resolution.py b/src/docket/dependencies/_resolution.py
index e8e28d3..d563759 100644
--- a/src/docket/dependencies/_resolution.py
+++ b/src/docket/dependencies/_resolution.py
@@ -208,9 +208,17 @@ async def resolved_dependencies(
 
                 annotations = get_annotation_dependencies(execution.function)
                 for parameter_name, dependencies in annotations.items():
-                    argument_value = execution.kwargs.get(
-                        parameter_name, arguments.get(parameter_name)
-                    )
+                    # The value may have been passed by position or be the default
+                    if parameter_name in arguments:
+                        argument_value = arguments[parameter_name]
+                    else:
+                        try:
+                            argument_value = execution.get_argument(parameter_name)
+                        except Exception as error:
+                            arguments[parameter_name] = FailedDependency(
+                                parameter_name, error
+                            )
+                            continue
                     for dependency in dependencies:
                         bound = dependency.bind_to_parameter(
                             parameter_name, argument_value
diff --git a/src/docket/execution.py b/src/docket/execution.py
index 12bffde..551e0d1 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -678,6 +678,7 @@ class Execution:
     def get_argument(self, parameter: str) -> Any:
         signature = get_signature(self.function)
         bound_args = signature.bind(*self.args, **self.kwargs)
+        bound_args.apply_defaults()
         return bound_args.arguments[parameter]
 
     def call_repr(self) -> str:
-- 
2.43.0


From 5d7756a9d573e436fcbc7ef2f9f30e8297ed9598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 21/59] fix: a task blocked by one admission control must not
 be taken up by the next

The remaining controls were still asked, so that a call dropped by a
Cooldown could be parked by a ConcurrencyLimit, and run later.
---
 src/docket/dependencies/_resolution.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/docket/dependencies/_resolution.py b/src/docket/dependencies/_resolution.py
index d563759..6dfcadd 100644
--- a/src/docket/dependencies/_resolution.py
+++ b/src/docket/dependencies/_resolution.py
@@ -12,6 +12,7 @@ from uncalled_for import (
 )
 
 from ._base import (
+    AdmissionBlocked,
     Dependency,
     current_docket,
     current_execution,
@@ -203,6 +204,10 @@ async def resolved_dependencies(
                         arguments[parameter] = await stack.enter_async_context(
                             dependency
                         )
+                    except AdmissionBlocked:
+                        # It doesn't start now, so don't ask further controls,
+                        # which might admit it or park it
+                        raise
                     except Exception as error:
                         arguments[parameter] = FailedDependency(parameter, error)
 
@@ -225,6 +230,8 @@ async def resolved_dependencies(
                         )
                         try:
                             await stack.enter_async_context(bound)
+                        except AdmissionBlocked:
+                            raise
                         except Exception as error:
                             arguments[parameter_name] = FailedDependency(
                                 parameter_name, error
-- 
2.43.0


From f8f16d4ad17bbf909d5c52c4e526c2583a50467a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 22/59] fix: a cooldown must not drop the very execution that
 started it

When the worker died before finishing the task, or another admission
control made it wait, its own marker dropped it the next time.
---
 src/docket/dependencies/_cooldown.py | 64 +++++++++++++++++++++++++++-
 1 file changed, 63 insertions(+), 1 deletion(-)

diff --git a/src/docket/dependencies/_cooldown.py b/src/docket/dependencies/_cooldown.py
index b72d22c..3f6e5fa 100644
--- a/src/docket/dependencies/_cooldown.py
+++ b/src/docket/dependencies/_cooldown.py
@@ -10,7 +10,49 @@ from datetime import timedelta
 from types import TracebackType
 from typing import Any
 
+from .._lua import Arg, Key, redis_script
+from .._redis import RedisClient
 from ._base import AdmissionBlocked, Dependency, current_docket, current_execution
+from ._functional import _Depends
+
+
+@redis_script
+async def _begin(
+    redis: RedisClient,
+    *,
+    cooldown_key: Key[str],
+    holder: Arg[str],
+    window_ms: Arg[int],
+) -> int:
+    """
+    -- Start the window unless one is in force.  The execution that started it
+    -- passes again: it is the same start, redelivered.
+    if redis.call('SET', cooldown_key, holder, 'NX', 'PX', window_ms) then
+        return 1
+    end
+    if redis.call('GET', cooldown_key) == holder then
+        return 1
+    end
+    return 0
+    """
+    ...
+
+
+@redis_script
+async def _give_back(
+    redis: RedisClient,
+    *,
+    cooldown_key: Key[str],
+    holder: Arg[str],
+) -> int:
+    """
+    -- Remove the window that this execution started, if still in force
+    if redis.call('GET', cooldown_key) == holder then
+        return redis.call('DEL', cooldown_key)
+    end
+    return 0
+    """
+    ...
 
 
 class Cooldown(Dependency["Cooldown"]):
@@ -58,8 +100,16 @@ class Cooldown(Dependency["Cooldown"]):
 
         window_ms = int(self.window.total_seconds() * 1000)
 
+        # A message that is redelivered keeps its ID
+        holder = f"{docket.name}:{execution.key}:{execution.message_id!r}"
+
         async with docket.redis() as redis:
-            acquired = await redis.set(cooldown_key, 1, nx=True, px=window_ms)
+            acquired = await _begin(
+                redis,
+                cooldown_key=cooldown_key,
+                holder=holder,
+                window_ms=window_ms,
+            )
 
         if not acquired:
             raise AdmissionBlocked(
@@ -68,6 +118,17 @@ class Cooldown(Dependency["Cooldown"]):
                 reschedule=False,
             )
 
+        async def give_back(
+            exc_type: type[BaseException] | None,
+            exc_value: BaseException | None,
+            traceback: TracebackType | None,
+        ) -> None:
+            # Another admission control held the task back, so it hasn't started
+            if exc_type is not None and issubclass(exc_type, AdmissionBlocked):
+                async with docket.redis() as redis:
+                    await _give_back(redis, cooldown_key=cooldown_key, holder=holder)
+
+        _Depends.stack.get().push_async_exit(give_back)
         return self
 
     async def __aexit__(
@@ -76,4 +137,5 @@ class Cooldown(Dependency["Cooldown"]):
         exc_value: BaseException | None,
         traceback: TracebackType | None,
     ) -> None:
+        # The window outlives the task; see __aenter__ for giving it back.
         pass
-- 
2.43.0


From ca1e4874ad0476940130f87c4177f7dff94691f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 23/59] fix: a rate limit must not count a redelivered
 execution again

It was dropped, or postponed by a whole window, on account of its own
first delivery.  And keep what is given back when another control blocks
apart for each execution: the instance is shared between them.
---
 src/docket/dependencies/_ratelimit.py | 38 ++++++++++++++++++---------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/docket/dependencies/_ratelimit.py b/src/docket/dependencies/_ratelimit.py
index 33b5905..0df67ba 100644
--- a/src/docket/dependencies/_ratelimit.py
+++ b/src/docket/dependencies/_ratelimit.py
@@ -2,8 +2,8 @@
 
 Caps how many times a task (or a per-parameter scope) can execute within a
 sliding window.  Uses a Redis sorted set as a sliding window log: members are
-``{execution_key}:{now_ms}`` strings (unique per attempt), scores are
-millisecond timestamps.
+``{docket}:{execution_key}:{message_id}`` strings (unique per attempt, but shared
+by the redeliveries of one attempt), scores are millisecond timestamps.
 """
 
 from __future__ import annotations
@@ -16,6 +16,7 @@ from typing import Any
 from .._lua import Arg, Key, redis_script
 from .._redis import RedisClient
 from ._base import AdmissionBlocked, Dependency, current_docket, current_execution
+from ._functional import _Depends
 
 _ACTION_PROCEED = 1
 _ACTION_BLOCKED = 2
@@ -41,6 +42,11 @@ async def _ratelimit(
     local cutoff = now_ms - window_ms
     redis.call('ZREMRANGEBYSCORE', ratelimit_key, '-inf', cutoff)
 
+    -- An execution that is redelivered has been counted already
+    if redis.call('ZSCORE', ratelimit_key, member) then
+        return {1, 0}
+    end
+
     -- Count remaining entries
     local count = redis.call('ZCARD', ratelimit_key)
 
@@ -100,8 +106,6 @@ class RateLimit(Dependency["RateLimit"]):
         self.scope = scope
         self._argument_name: str | None = None
         self._argument_value: Any = None
-        self._ratelimit_key: str | None = None
-        self._member: str | None = None
 
     def bind_to_parameter(self, name: str, value: Any) -> RateLimit:
         bound = RateLimit(self.limit, per=self.per, drop=self.drop, scope=self.scope)
@@ -124,7 +128,7 @@ class RateLimit(Dependency["RateLimit"]):
         window_ms = int(self.per.total_seconds() * 1000)
         now_ms = int(time.time() * 1000)
         ttl_ms = window_ms * 2
-        member = f"{execution.key}:{now_ms}"
+        member = f"{docket.name}:{execution.key}:{execution.message_id!r}"
 
         async with docket.redis() as redis:
             result = await _ratelimit(
@@ -141,8 +145,20 @@ class RateLimit(Dependency["RateLimit"]):
         retry_after_ms = result[1]
 
         if action == _ACTION_PROCEED:
-            self._ratelimit_key = ratelimit_key
-            self._member = member
+
+            async def give_back(
+                exc_type: type[BaseException] | None,
+                exc_value: BaseException | None,
+                traceback: TracebackType | None,
+            ) -> None:
+                # Another admission control held the task back: it hasn't started
+                if exc_type is not None and issubclass(exc_type, AdmissionBlocked):
+                    async with docket.redis() as redis:
+                        await redis.zrem(ratelimit_key, member)
+
+            # This instance may be the parameter's default, which concurrent
+            # executions share, so nothing about this one is kept on it.
+            _Depends.stack.get().push_async_exit(give_back)
             return self
 
         reason = f"rate limit ({self.limit}/{self.per}) on {ratelimit_key}"
@@ -162,9 +178,5 @@ class RateLimit(Dependency["RateLimit"]):
         exc_value: BaseException | None,
         traceback: TracebackType | None,
     ) -> None:
-        if exc_type is not None and self._member is not None:
-            if issubclass(exc_type, AdmissionBlocked):
-                assert self._ratelimit_key is not None
-                docket = current_docket.get()
-                async with docket.redis() as redis:
-                    await redis.zrem(self._ratelimit_key, self._member)
+        # See __aenter__ for giving the slot back.
+        pass
-- 
2.43.0


From b8545b96ce0b9b7fbc7c3ad9d340de6e2ccef49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 24/59] fix: a cancelled task must not block its debounce key

The submission chosen to run may have been cancelled, and every later
submission was dropped on its account, for as long as they kept coming.
---
 src/docket/dependencies/_debounce.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/docket/dependencies/_debounce.py b/src/docket/dependencies/_debounce.py
index 3c10695..aeafe7f 100644
--- a/src/docket/dependencies/_debounce.py
+++ b/src/docket/dependencies/_debounce.py
@@ -64,6 +64,15 @@ async def _debounce(
         end
     end
 
+    -- Someone else is the winner, but if things had settled before now it ought
+    -- to have proceeded: it is gone (cancelled, say), so I take over.
+    local last_seen = tonumber(redis.call('GET', seen_key)) or 0
+    if now_ms - last_seen >= settle_ms then
+        redis.call('SET', winner_key, execution_key, 'PX', ttl_ms)
+        redis.call('SET', seen_key, tostring(now_ms), 'PX', ttl_ms)
+        return {2, settle_ms}
+    end
+
     -- Someone else is the winner: update last_seen and refresh TTLs
     redis.call('SET', seen_key, tostring(now_ms), 'PX', ttl_ms)
     redis.call('PEXPIRE', winner_key, ttl_ms)
-- 
2.43.0


From 19a8e544a7f6dda940bece6f45e2f2f7034bc5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 25/59] fix: a task under a Timeout that raises its own
 TimeoutError must not be recorded as completed

After the monitoring loop ended because the task was done, a task whose own
exception is a TimeoutError left through the loop's 'except TimeoutError', and
a task that ended in the very moment of its timeout lost its result: both were
recorded as completed with None.
---
 src/docket/dependencies/_timeout.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/docket/dependencies/_timeout.py b/src/docket/dependencies/_timeout.py
index a9b4906..2d64c37 100644
--- a/src/docket/dependencies/_timeout.py
+++ b/src/docket/dependencies/_timeout.py
@@ -91,6 +91,11 @@ class Timeout(Runtime["Timeout"]):
                     )
                 except asyncio.TimeoutError:
                     continue
+
+            if not timed_out:
+                # The function finished in the very moment of the timeout, or
+                # has raised a TimeoutError of its own
+                return task.result()
         finally:
             if not task.done():
                 timeout_reason = (
-- 
2.43.0


From f2796cb33e580e05774a8c205e128f4ebc0a57fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 26/59] fix: a run cancelled before it was admitted is not
 parked again

_acquire_or_park only recognised newer schedules, so a task cancelled between
its claim and its admission was parked, and its cancelled record came back to
life as scheduled.
---
 src/docket/dependencies/_concurrency.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index df48ee2..551cd4f 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -69,12 +69,13 @@ async def _acquire_or_park(
     -- into the waiter stream; caller raises ConcurrencyBlocked(handled=True)
     -- so the worker takes no further action).
 
-    -- If a newer schedule of this key (a replace, or a cancel and add) took
-    -- over since this run was claimed, retire its message without touching
-    -- the newer schedule.  Returns -1.
+    -- If this run has been cancelled, or a newer schedule of this key (a
+    -- replace, or a cancel and add) took over since it was claimed, retire its
+    -- message without touching the record.  Returns -1.
     if generation > 0 then
         local current = redis.call('HGET', runs_key, 'generation')
-        if current and tonumber(current) > generation then
+        if not current or tonumber(current) > generation
+            or redis.call('HGET', runs_key, 'state') == 'cancelled' then
             redis.call('XACK', stream_key, worker_group_name, message_id)
             redis.call('XDEL', stream_key, message_id)
             return -1
-- 
2.43.0


From a04f6fb33207d44fafc1ee38b104e87fbf9171ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:30 +0000
Subject: [PATCH 27/59] fix: a perpetual task that ends itself is not recorded
 as cancelled first

Perpetual.cancel() marked the run's record cancelled just before the run
recorded that it had completed.
---
 src/docket/docket.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index ae419e7..77b7b0d 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -90,6 +90,10 @@ async def _cancel_task(
         if current and tonumber(current) > generation then
             return 'SUPERSEDED'
         end
+        -- The run itself is about to record how it ended
+        if redis.call('HGET', runs_key, 'state') == 'running' then
+            return 'OK'
+        end
     end
 
     -- Get stream ID (check new location first, then legacy)
-- 
2.43.0


From 6ee2d98a09914e03963be5f574d4f078262820fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:37 +0000
Subject: [PATCH 28/59] fix: a late cancellation does not overwrite the outcome
 a run has recorded

A cancellation that struck while the worker was recording the outcome turned a
completed or failed run's record into a cancelled one.
---
 src/docket/execution.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 551e0d1..c434304 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -422,6 +422,17 @@ async def _terminal(
         end
     end
 
+    -- A cancellation that arrives while the outcome is being recorded comes too
+    -- late, and one requested through Docket.cancel has been announced already.
+    local previous = redis.call('HGET', runs_key, 'state')
+    if state == 'cancelled' and (previous == 'completed' or previous == 'failed') then
+        if message_id ~= '' then
+            redis.call('XACK', stream_key, worker_group_name, message_id)
+            redis.call('XDEL', stream_key, message_id)
+        end
+        return 'OK'
+    end
+
     -- Build HSET args: state + completed_at + any extras
     local hset_args = {'state', state, 'completed_at', completed_at}
     for i = extra_fields_start, #ARGV, 2 do
-- 
2.43.0


From 7dfabefc3ae58319e13fe21b647fa7e4dcc2f900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:37 +0000
Subject: [PATCH 29/59] fix: cancelling a task announces it to those waiting
 for its result

The state was recorded but never published for a task that was not running, so
get_result() and subscribe() on it waited forever.
---
 src/docket/docket.py    | 16 ++++++++++++++++
 src/docket/execution.py |  4 +++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index 77b7b0d..5b948b4 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -1,4 +1,5 @@
 import importlib
+import json
 import logging
 from contextlib import AsyncExitStack, asynccontextmanager
 from datetime import datetime, timedelta, timezone
@@ -42,6 +43,7 @@ from ._uuid7 import uuid7
 from .execution import (
     Disposition,
     Execution,
+    ExecutionState,
     TaskFunction,
     predecessor_generation,
 )
@@ -75,10 +77,12 @@ async def _cancel_task(
     stream_id_key: Key[str],
     runs_key: Key[str],
     progress_key: Key[str],
+    state_channel: Key[str],
     task_key: Arg[str],
     completed_at: Arg[str],
     ttl_seconds: Arg[int],
     generation: Arg[int],
+    state_payload: Arg[str],
 ) -> bytes:
     """
     -- TODO: Remove known_key / parked_key / stream_id_key handling in
@@ -126,6 +130,9 @@ async def _cancel_task(
     local current_state = redis.call('HGET', runs_key, 'state')
     if current_state ~= 'completed' and current_state ~= 'failed' and current_state ~= 'cancelled' then
         redis.call('HSET', runs_key, 'state', 'cancelled', 'completed_at', completed_at)
+        if current_state then
+            redis.call('PUBLISH', state_channel, state_payload)
+        end
     end
 
     -- Apply TTL or delete the tombstone (execution_ttl=0 means no
@@ -795,10 +802,19 @@ class Docket(DocketSnapshotMixin):
             stream_id_key=self.stream_id_key(key),
             runs_key=task_runs_key,
             progress_key=self.key(f"progress:{key}"),
+            state_channel=self.key(f"state:{key}"),
             task_key=key,
             completed_at=completed_at,
             ttl_seconds=int(self.execution_ttl.total_seconds()),
             generation=generation,
+            state_payload=json.dumps(
+                {
+                    "type": "state",
+                    "key": key,
+                    "state": ExecutionState.CANCELLED.value,
+                    "completed_at": completed_at,
+                }
+            ),
         )
 
     async def strike(
diff --git a/src/docket/execution.py b/src/docket/execution.py
index c434304..d6529aa 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -447,7 +447,9 @@ async def _terminal(
         redis.call('DEL', runs_key)
     end
 
-    redis.call('PUBLISH', state_channel, state_payload)
+    if not (state == 'cancelled' and previous == 'cancelled') then
+        redis.call('PUBLISH', state_channel, state_payload)
+    end
     redis.call('DEL', progress_key)
     if message_id ~= '' then
         redis.call('XACK', stream_key, worker_group_name, message_id)
-- 
2.43.0


From 73cc7ef84581d69c77ded2f3622322b5d35164b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:37 +0000
Subject: [PATCH 30/59] fix: waiting for a result does not miss the end or take
 an older run's end

get_result() took the end of a superseded run for that of its replacement, and
a task that ended between the first look at its record and the subscription
was waited for until the deadline.
---
 src/docket/_execution_progress.py |  3 +-
 src/docket/execution.py           | 65 ++++++++++++++++++++++---------
 2 files changed, 48 insertions(+), 20 deletions(-)

diff --git a/src/docket/_execution_progress.py b/src/docket/_execution_progress.py
index 13cae8d..31b7c2d 100644
--- a/src/docket/_execution_progress.py
+++ b/src/docket/_execution_progress.py
@@ -17,7 +17,7 @@ from ._lua import Arg, Args, Key, redis_script
 from ._redis import RedisClient
 
 from ._telemetry import suppress_instrumentation
-from typing_extensions import Self
+from typing_extensions import NotRequired, Self
 
 if TYPE_CHECKING:
     from .docket import Docket
@@ -68,6 +68,7 @@ class StateEvent(TypedDict):
     started_at: str | None
     completed_at: str | None
     error: str | None
+    generation: NotRequired[int]
 
 
 class ExecutionProgress:
diff --git a/src/docket/execution.py b/src/docket/execution.py
index d6529aa..5345d4f 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -937,11 +937,12 @@ class Execution:
 
         # Pre-build the terminal-state payload; the Lua publishes it on both
         # the success and supersession paths.
-        state_payload_data: dict[str, str] = {
+        state_payload_data: dict[str, str | int] = {
             "type": "state",
             "key": self.key,
             "state": state.value,
             "completed_at": completed_at,
+            "generation": self._generation,
         }
         if error:
             state_payload_data["error"] = error
@@ -1063,10 +1064,16 @@ class Execution:
             try:
 
                 async def wait_for_completion():
+                    generation = await self._current_generation()
                     async for event in self.subscribe():  # pragma: no branch
                         if event["type"] == "state":
                             state = ExecutionState(event["state"])
-                            if state in terminal_states:
+                            # the end of a run that was superseded before we
+                            # began to wait is not the one we are waiting for
+                            if (
+                                state in terminal_states
+                                and event.get("generation", generation) >= generation
+                            ):
                                 # Sync to get latest data including result key
                                 await self.sync()
                                 break
@@ -1166,11 +1173,14 @@ class Execution:
         """
         if self._generation == 0:
             return False
+        return await self._current_generation() > self._generation
+
+    async def _current_generation(self) -> int:
+        """The generation of the newest schedule of this key."""
         with self._maybe_suppress_instrumentation():
             async with self.docket.redis() as redis:
                 current = await redis.hget(self._redis_key, "generation")
-        current_gen = int(current) if current is not None else 0
-        return current_gen > self._generation
+        return int(current) if current is not None else 0
 
     async def subscribe(
         self, *, ready: asyncio.Event | None = None
@@ -1195,21 +1205,8 @@ class Execution:
         # First, emit the current state
         await self.sync()
 
-        # Build initial state event from current attributes
-        initial_state: StateEvent = {
-            "type": "state",
-            "key": self.key,
-            "state": self.state,
-            "when": self.when.isoformat(),
-            "worker": self.worker,
-            "started_at": self.started_at.isoformat() if self.started_at else None,
-            "completed_at": (
-                self.completed_at.isoformat() if self.completed_at else None
-            ),
-            "error": self.error,
-        }
-
-        yield initial_state
+        initial_completed_at = self.completed_at
+        yield self._state_event()
 
         progress_event: ProgressEvent = {
             "type": "progress",
@@ -1231,13 +1228,43 @@ class Execution:
             await pubsub.subscribe(state_channel, progress_channel)
             if ready is not None:
                 ready.set()
+
+            # The task may have ended before the subscription was live: report
+            # that from its record (and not once more from events on their way).
+            await self.sync()
+            caught_up: set[str | None] = set()
+            if self.completed_at and self.completed_at != initial_completed_at:
+                event = self._state_event()
+                caught_up = {event["started_at"], event["completed_at"]} - {None}
+                yield event
+
             async for message in pubsub.listen():  # pragma: no cover
                 if message["type"] == "message":
                     message_data = json.loads(message["data"])
                     if message_data["type"] == "state":
                         message_data["state"] = ExecutionState(message_data["state"])
+                        if (
+                            message_data.get("completed_at")
+                            or message_data.get("started_at")
+                        ) in caught_up:
+                            continue
                     yield message_data
 
+    def _state_event(self) -> StateEvent:
+        """A state event describing the current attributes."""
+        return {
+            "type": "state",
+            "key": self.key,
+            "state": self.state,
+            "when": self.when.isoformat(),
+            "worker": self.worker,
+            "started_at": self.started_at.isoformat() if self.started_at else None,
+            "completed_at": (
+                self.completed_at.isoformat() if self.completed_at else None
+            ),
+            "error": self.error,
+        }
+
 
 def compact_signature(signature: inspect.Signature) -> str:
     parameters: list[str] = []
-- 
2.43.0


From 1e37c52d88a9d102d4f18758e7e11fb328ca77a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:23 +0000
Subject: [PATCH 31/59] fix: clear() frees the keys it clears and spares the
 tasks that are running

The stream was trimmed with the messages of running tasks in it (so that they
were not redelivered after a crash), their records were set to expire, and the
keys of cleared ready tasks stayed taken until their records expired; tasks
parked by a concurrency limit lost their safeguard instead of being cleared.
Each waiting task is now cancelled atomically.
---
 src/docket/docket.py | 109 +++++++++++++++++++++----------------------
 1 file changed, 52 insertions(+), 57 deletions(-)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index 5b948b4..bf10fde 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -82,12 +82,31 @@ async def _cancel_task(
     completed_at: Arg[str],
     ttl_seconds: Arg[int],
     generation: Arg[int],
+    waiting_only: Arg[bool],
     state_payload: Arg[str],
 ) -> bytes:
     """
     -- TODO: Remove known_key / parked_key / stream_id_key handling in
     -- v0.14.0 (legacy key locations).
 
+    -- Docket.clear leaves running and finished tasks alone
+    if waiting_only then
+        local waiting = redis.call('HGET', runs_key, 'state')
+        if waiting ~= 'scheduled' and waiting ~= 'queued' then
+            return 'NOT_WAITING'
+        end
+        -- ... and takes parked tasks off their waiter stream
+        local waiter_stream = redis.call('HGET', runs_key, 'waiter_stream')
+        local waiter_entry_id = redis.call('HGET', runs_key, 'waiter_entry_id')
+        if waiter_stream and waiter_entry_id then
+            redis.call('XDEL', waiter_stream, waiter_entry_id)
+            if redis.call('XLEN', waiter_stream) == 0 then
+                redis.call('DEL', waiter_stream)
+            end
+            redis.call('HDEL', runs_key, 'waiter_stream', 'waiter_entry_id')
+        end
+    end
+
     -- A run ending its own chain leaves a newer schedule of the key alone
     if generation > 0 then
         local current = redis.call('HGET', runs_key, 'generation')
@@ -152,6 +171,9 @@ async def _cancel_task(
 P = ParamSpec("P")
 R = TypeVar("R")
 
+# The key of the task that guards a task parked by a ConcurrencyLimit starts so
+SAFEGUARD_PREFIX = "__safeguard__:"
+
 TaskCollection = Iterable[TaskFunction]
 
 
@@ -773,10 +795,15 @@ class Docket(DocketSnapshotMixin):
                 raise  # pragma: no cover
 
     async def _cancel(
-        self, redis: RedisClient, key: str, generation: int = 0
-    ) -> None:
+        self,
+        redis: RedisClient,
+        key: str,
+        generation: int = 0,
+        waiting_only: bool = False,
+    ) -> bool:
         """Cancel a task atomically, unless ``generation`` is given and the key
-        has been scheduled anew since.
+        has been scheduled anew since, or ``waiting_only`` and the task is not
+        waiting to start.  Returns whether it did.
 
         Handles cancellation regardless of task location:
         - From the stream (using stored message ID)
@@ -793,7 +820,7 @@ class Docket(DocketSnapshotMixin):
         task_runs_key = self.runs_key(key)
 
         # Execute the cancellation script
-        await _cancel_task(
+        result = await _cancel_task(
             redis,
             stream_key=self.stream_key,
             known_key=self.known_task_key(key),
@@ -807,6 +834,7 @@ class Docket(DocketSnapshotMixin):
             completed_at=completed_at,
             ttl_seconds=int(self.execution_ttl.total_seconds()),
             generation=generation,
+            waiting_only=waiting_only,
             state_payload=json.dumps(
                 {
                     "type": "state",
@@ -816,6 +844,7 @@ class Docket(DocketSnapshotMixin):
                 }
             ),
         )
+        return result == b"OK"
 
     async def strike(
         self,
@@ -878,7 +907,7 @@ class Docket(DocketSnapshotMixin):
     async def clear(self) -> int:
         """Clear all queued and scheduled tasks from the docket.
 
-        This removes all tasks from the stream (immediate tasks) and queue
+        This cancels all tasks waiting in the stream (immediate tasks) and queue
         (scheduled tasks), along with their associated parked data. Running
         tasks are not affected.
 
@@ -891,58 +920,24 @@ class Docket(DocketSnapshotMixin):
         ):
             async with self.redis() as redis:
                 async with redis.pipeline() as pipeline:
-                    # Get counts before clearing
-                    pipeline.xlen(self.stream_key)
-                    pipeline.zcard(self.queue_key)
                     pipeline.zrange(self.queue_key, 0, -1)
+                    pipeline.xrange(self.stream_key, "-", "+")
 
-                    stream_count: int
-                    queue_count: int
                     scheduled_keys: list[bytes]
-                    stream_count, queue_count, scheduled_keys = await pipeline.execute()
-
-                # Get keys from stream messages before trimming
-                stream_keys: list[str] = []
-                if stream_count > 0:
-                    # Read all messages from the stream
-                    messages = await redis.xrange(self.stream_key, "-", "+")
-                    for message_id, fields in messages:
-                        # Extract the key field from the message
-                        if b"key" in fields:  # pragma: no branch
-                            stream_keys.append(fields[b"key"].decode())
-
-                async with redis.pipeline() as pipeline:
-                    # Clear all data
-                    # Trim stream to 0 messages instead of deleting it to preserve consumer group
-                    if stream_count > 0:
-                        pipeline.xtrim(self.stream_key, maxlen=0, approximate=False)
-                    pipeline.delete(self.queue_key)
-
-                    # Clear parked task data and known task keys for scheduled tasks
-                    for key_bytes in scheduled_keys:
-                        task_key = key_bytes.decode()
-                        pipeline.delete(self.parked_task_key(task_key))
-                        pipeline.delete(self.known_task_key(task_key))
-                        pipeline.delete(self.stream_id_key(task_key))
-
-                        # Handle runs hash: set TTL or delete based on execution_ttl
-                        task_runs_key = self.runs_key(task_key)
-                        if self.execution_ttl:
-                            ttl_seconds = int(self.execution_ttl.total_seconds())
-                            pipeline.expire(task_runs_key, ttl_seconds)
-                        else:
-                            pipeline.delete(task_runs_key)
-
-                    # Handle runs hash for immediate tasks from stream
-                    for task_key in stream_keys:
-                        task_runs_key = self.runs_key(task_key)
-                        if self.execution_ttl:
-                            ttl_seconds = int(self.execution_ttl.total_seconds())
-                            pipeline.expire(task_runs_key, ttl_seconds)
-                        else:
-                            pipeline.delete(task_runs_key)
-
-                    await pipeline.execute()
-
-                    total_cleared = stream_count + queue_count
-                    return total_cleared
+                    messages: list[tuple[RedisMessageID, RedisMessage]]
+                    scheduled_keys, messages = await pipeline.execute()
+
+                keys = [key.decode() for key in scheduled_keys]
+                keys += [fields[b"key"].decode() for _, fields in messages]
+
+                total_cleared = 0
+                for key in keys:
+                    # A parked task is neither in the queue nor in the stream,
+                    # but its safeguard is
+                    task_key = key.removeprefix(SAFEGUARD_PREFIX)
+                    if await self._cancel(redis, task_key, waiting_only=True):
+                        total_cleared += 1
+                        if task_key != key:
+                            await self._cancel(redis, key, waiting_only=True)
+
+                return total_cleared
-- 
2.43.0


From d676aa7ca5e93a60ce8f711a46656dbe9b722bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:27 +0000
Subject: [PATCH 32/59] fix: a parked task is guarded from the moment it is
 parked

Its safeguard was added by a separate operation: a worker lost in between (or
a clear()) left the task without one, to wait forever if the holder was lost
too.
---
 src/docket/dependencies/_concurrency.py | 82 +++++++++++++++++--------
 1 file changed, 57 insertions(+), 25 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index 551cd4f..bd8efc0 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -49,8 +49,14 @@ async def _acquire_or_park(
     waiters_stream: Key[str],
     stream_key: Key[str],
     runs_key: Key[str],
+    queue_key: Key[str],
+    safeguard_parked_key: Key[str],
+    safeguard_runs_key: Key[str],
     max_concurrent: Arg[int],
     task_key: Arg[str],
+    safeguard_key: Arg[str],
+    safeguard_when: Arg[float],
+    safeguard_size: Arg[int],
     current_time: Arg[float],
     generation: Arg[int],
     is_redelivery: Arg[bool],
@@ -60,7 +66,7 @@ async def _acquire_or_park(
     worker_group_name: Arg[str],
     state_channel: Arg[str],
     state_payload: Arg[str],
-    message: Args[dict[bytes, bytes]],
+    messages: Args[list[bytes]],
 ) -> int:
     """
     -- Acquire a concurrency slot, or park the task on the waiter stream
@@ -122,7 +128,7 @@ async def _acquire_or_park(
     local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
     local message = {}
     local function_name, args_data, kwargs_data
-    for i = message_start, #ARGV, 2 do
+    for i = messages_start + safeguard_size, #ARGV, 2 do
         local field_name = ARGV[i]
         local field_value = ARGV[i + 1]
         if field_name == 'generation' then
@@ -156,6 +162,32 @@ async def _acquire_or_park(
 
     redis.call('PUBLISH', state_channel, state_payload)
 
+    -- Schedule the safeguard that backstops the normal release path, along with
+    -- the park, so that a worker lost in between cannot leave a task unguarded.
+    local safeguard_stream_id = redis.call('HGET', safeguard_runs_key, 'stream_id')
+    if safeguard_stream_id then
+        redis.call('XDEL', stream_key, safeguard_stream_id)
+    end
+    local safeguard_gen = (tonumber(redis.call('HGET', safeguard_runs_key, 'generation')) or 0) + 1
+    redis.call('DEL', safeguard_runs_key, safeguard_parked_key)
+    for i = messages_start, messages_start + safeguard_size - 1, 2 do
+        local field_name = ARGV[i]
+        local field_value = ARGV[i + 1]
+        if field_name == 'generation' then
+            field_value = tostring(safeguard_gen)
+        elseif field_name == 'function' or field_name == 'args' or field_name == 'kwargs' then
+            redis.call('HSET', safeguard_runs_key, field_name, field_value)
+        end
+        redis.call('HSET', safeguard_parked_key, field_name, field_value)
+    end
+    redis.call('HSET', safeguard_runs_key,
+        'generation', safeguard_gen,
+        'state', 'scheduled',
+        'when', safeguard_when,
+        'known', safeguard_when
+    )
+    redis.call('ZADD', queue_key, safeguard_when, safeguard_key)
+
     return 0
     """
     ...
@@ -553,6 +585,7 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
         )
 
     async def __aenter__(self) -> ConcurrencyLimit:
+        from ..execution import Execution
         from ._functional import _Depends
 
         execution = current_execution.get()
@@ -609,6 +642,20 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
             int(redelivery_timeout.total_seconds() * LEASE_RENEWAL_FACTOR),
         )
 
+        # If the task parks, a safeguard task backstops the normal release path.
+        # If a holder releases first, it is dropped (or a no-op when it runs);
+        # otherwise it scavenges any stale slots and wakes the waiters.
+        safeguard = Execution(
+            docket,
+            _safeguard_wake,
+            (),
+            {"waiter_stream": waiters_stream, "max_concurrent": self.max_concurrent},
+            f"__safeguard__:{execution.key}",
+            datetime.now(timezone.utc) + redelivery_timeout,
+            attempt=1,
+        )
+        safeguard_message = [x for pair in safeguard.as_message().items() for x in pair]
+
         # One atomic script: either acquire a slot, or XACK+XDEL the main
         # stream message and re-XADD the payload into the waiter stream.
         # Folding acquire-and-park together closes a race where a slot holder
@@ -624,8 +671,14 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
                 waiters_stream=waiters_stream,
                 stream_key=docket.stream_key,
                 runs_key=execution._redis_key,
+                queue_key=docket.queue_key,
+                safeguard_parked_key=docket.parked_task_key(safeguard.key),
+                safeguard_runs_key=docket.runs_key(safeguard.key),
                 max_concurrent=self.max_concurrent,
                 task_key=execution.key,
+                safeguard_key=safeguard.key,
+                safeguard_when=safeguard.when.timestamp(),
+                safeguard_size=len(safeguard_message),
                 current_time=current_time,
                 generation=execution.generation,
                 is_redelivery=execution.redelivered,
@@ -635,7 +688,8 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
                 worker_group_name=docket.worker_group_name,
                 state_channel=f"{docket.prefix}:state:{execution.key}",
                 state_payload=park_state_payload,
-                message=message,
+                messages=safeguard_message
+                + [x for pair in message.items() for x in pair],
             )
 
         if int(result) < 0:
@@ -647,28 +701,6 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
                 execution.key,
                 waiters_stream,
             )
-            # Schedule a safeguard task to backstop the normal release path.
-            # If a holder releases first, this becomes a no-op when it runs;
-            # otherwise it scavenges any stale slots and wakes the waiters.
-            safeguard_key = f"__safeguard__:{execution.key}"
-            await docket.add(
-                _safeguard_wake,
-                when=datetime.now(timezone.utc) + redelivery_timeout,
-                key=safeguard_key,
-            )(waiter_stream=waiters_stream, max_concurrent=self.max_concurrent)
-            # A wake-on-release may have fired between the park script
-            # returning and the docket.add above.  Its safeguard ZREM was a
-            # no-op (the safeguard hadn't been added yet), and we'd leak
-            # the safeguard into the future queue -- preventing
-            # ``run_until_finished`` from ever seeing an empty queue.
-            # If the runs hash shows we've already been forwarded back to
-            # the main stream, cancel the leftover safeguard.
-            async with docket.redis() as redis:
-                state = await redis.hget(  # type: ignore[misc]
-                    execution._redis_key, "state"
-                )
-            if state != b"scheduled":
-                await docket.cancel(safeguard_key)
             raise ConcurrencyBlocked(execution, concurrency_key, self.max_concurrent)
 
         # Acquired.  Start heartbeating the slot and register the release
-- 
2.43.0


From d0245471ba1d40f88f04f33434a60822ec0b8885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:53 +0000
Subject: [PATCH 33/59] fix: a worker that is stopping keeps its leases and
 heeds cancellations

While it finished its active tasks (on shutdown, or before reconnecting) its
background tasks had already ended: a task that ran longer than the redelivery
timeout was run again by another worker, and could no longer be cancelled.
---
 src/docket/worker.py | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 65ffe58..11c1847 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -743,6 +743,23 @@ class Worker:
                 if not execution._acked:
                     await execution.mark_as_failed(error=None)
 
+        async def finish_active_tasks(
+            exc_type: type[BaseException] | None, *_: object
+        ) -> None:
+            if self._heartbeat_task is not None:
+                await cancel_task(self._heartbeat_task, CANCEL_MSG_CLEANUP)
+            self._heartbeat_task = None
+            await self._remove_heartbeat()
+            if active_tasks:
+                if exc_type is asyncio.CancelledError:  # pragma: no cover
+                    logger.info(
+                        "Shutdown requested, finishing %d active tasks...",
+                        len(active_tasks),
+                        extra=log_context,
+                    )
+                await asyncio.gather(*active_tasks, return_exceptions=True)
+                await process_completed_tasks()
+
         disconnect: ConnectionError | None = None
         try:
             async with AsyncExitStack() as dependency_stack:
@@ -763,6 +780,9 @@ class Worker:
                     # listener may lose its CancelledError to a connection
                     # error while closing its subscription.
                     infra_stack.callback(session.stopping.set)
+                    # They are needed until the running tasks have ended: the
+                    # leases must be renewed, and the tasks may be cancelled.
+                    infra_stack.push_async_exit(finish_active_tasks)
                     # Start cancellation listener and wait for it to be ready
                     infra.create_task(
                         self._cancellation_listener(),
@@ -840,21 +860,9 @@ class Worker:
             if disconnect is not None:
                 raise disconnect
         except asyncio.CancelledError:
-            if active_tasks:  # pragma: no cover
-                logger.info(
-                    "Shutdown requested, finishing %d active tasks...",
-                    len(active_tasks),
-                    extra=log_context,
-                )
+            pass
         finally:
             session.stopping.set()
-            if self._heartbeat_task is not None:
-                await cancel_task(self._heartbeat_task, CANCEL_MSG_CLEANUP)
-            self._heartbeat_task = None
-            await self._remove_heartbeat()
-            if active_tasks:
-                await asyncio.gather(*active_tasks, return_exceptions=True)
-                await process_completed_tasks()
             if self._processing_session is session:
                 self._processing_session = None
 
-- 
2.43.0


From 7a74737b1876b8a9a11dcf08951c9ae5b5b4e2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:14 +0000
Subject: [PATCH 34/59] fix: a request to stop while reconnecting does not
 cancel the running tasks

The tasks of a worker that had lost its connection and was finishing them
before it reconnected were cancelled by the first request to stop.
---
 src/docket/worker.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 11c1847..377732f 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -757,8 +757,14 @@ class Worker:
                         len(active_tasks),
                         extra=log_context,
                     )
-                await asyncio.gather(*active_tasks, return_exceptions=True)
-                await process_completed_tasks()
+                draining = asyncio.gather(*active_tasks, return_exceptions=True)
+                try:
+                    # Before reconnecting, a request to stop may still come
+                    stopping_now = exc_type is asyncio.CancelledError
+                    await (draining if stopping_now else asyncio.shield(draining))
+                finally:
+                    await draining
+                    await process_completed_tasks()
 
         disconnect: ConnectionError | None = None
         try:
-- 
2.43.0


From cae173725153aa0da3b6ca0eac5be9aaf05ea522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 35/59] fix: snapshot() works on the in-memory backend while a
 task is running

---
 src/docket/_docket_snapshot.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/docket/_docket_snapshot.py b/src/docket/_docket_snapshot.py
index f78497b..126307b 100644
--- a/src/docket/_docket_snapshot.py
+++ b/src/docket/_docket_snapshot.py
@@ -167,6 +167,14 @@ class DocketSnapshotMixin:
 
         total_tasks = total_stream_messages + total_schedule_messages
 
+        # the in-memory backend's entries have bytes for keys
+        pending_messages = [
+            cast(
+                "RedisStreamPendingMessage",
+                {k.decode() if isinstance(k, bytes) else k: v for k, v in p.items()},
+            )
+            for p in pending_messages
+        ]
         pending_lookup: dict[RedisMessageID, RedisStreamPendingMessage] = {
             pending["message_id"]: pending for pending in pending_messages
         }
-- 
2.43.0


From cd3f4baa2b71d84d23272b30b2ada45f614a8e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 36/59] fix: a snapshot lists all tasks, not just the first
 thousand

---
 src/docket/_docket_snapshot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/docket/_docket_snapshot.py b/src/docket/_docket_snapshot.py
index 126307b..a90f2ad 100644
--- a/src/docket/_docket_snapshot.py
+++ b/src/docket/_docket_snapshot.py
@@ -123,10 +123,10 @@ class DocketSnapshotMixin:
                     self.worker_group_name,
                     min="-",
                     max="+",
-                    count=1000,
+                    count=2**31 - 1,
                 )
 
-                pipeline.xrange(self.stream_key, "-", "+", count=1000)
+                pipeline.xrange(self.stream_key, "-", "+")
 
                 pipeline.zrange(self.queue_key, 0, -1)
 
-- 
2.43.0


From a750b2434768796e1a42f4632eb3d6fe8a607a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:06 +0000
Subject: [PATCH 37/59] fix: a snapshot does not fail on a task whose function
 is not registered

---
 src/docket/_docket_snapshot.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/docket/_docket_snapshot.py b/src/docket/_docket_snapshot.py
index a90f2ad..57075a0 100644
--- a/src/docket/_docket_snapshot.py
+++ b/src/docket/_docket_snapshot.py
@@ -8,7 +8,7 @@ from typing import TYPE_CHECKING, Collection, Sequence, cast
 import redis.exceptions
 
 from ._redis import RedisClient
-from .execution import Execution, ExecutionState
+from .execution import Execution, ExecutionState, TaskFunction
 
 if TYPE_CHECKING:
     from .docket import RedisMessage, RedisMessageID, RedisStreamPendingMessage
@@ -41,6 +41,7 @@ class RunningExecution(Execution):
             attempt=execution.attempt,
             trace_context=execution.trace_context,
             redelivered=execution.redelivered,
+            function_name=execution.function_name,
         )
         self.state: ExecutionState = execution.state
         self.started_at: datetime | None = execution.started_at
@@ -184,8 +185,18 @@ class DocketSnapshotMixin:
 
         docket = cast(Docket, self)
 
+        def placeholder(message: "RedisMessage") -> TaskFunction:
+            # Stands in for a function not registered with this docket
+            async def placeholder() -> None:
+                pass  # pragma: no cover
+
+            placeholder.__name__ = message[b"function"].decode()
+            return placeholder
+
         for message_id, message in stream_messages:
-            execution = await Execution.from_message(docket, message)
+            execution = await Execution.from_message(
+                docket, message, fallback_task=placeholder(message)
+            )
             if message_id in pending_lookup:
                 worker_name = pending_lookup[message_id]["consumer"].decode()
                 started = now - timedelta(
@@ -196,7 +207,9 @@ class DocketSnapshotMixin:
                 future.append(execution)  # pragma: no cover
 
         for message in queued_messages:
-            execution = await Execution.from_message(docket, message)
+            execution = await Execution.from_message(
+                docket, message, fallback_task=placeholder(message)
+            )
             future.append(execution)
 
         workers = await self.workers()
-- 
2.43.0


From 30a870c105f87a2e92d2a4bd224341c87786421d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:32 +0000
Subject: [PATCH 38/59] fix: a snapshot lists parked tasks, and its total is
 that of its lists

---
 src/docket/_docket_snapshot.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/docket/_docket_snapshot.py b/src/docket/_docket_snapshot.py
index 57075a0..0b177b0 100644
--- a/src/docket/_docket_snapshot.py
+++ b/src/docket/_docket_snapshot.py
@@ -115,10 +115,6 @@ class DocketSnapshotMixin:
 
         async with self.redis() as r:
             async with r.pipeline() as pipeline:
-                pipeline.xlen(self.stream_key)
-
-                pipeline.zcard(self.queue_key)
-
                 pipeline.xpending_range(
                     self.stream_key,
                     self.worker_group_name,
@@ -131,8 +127,6 @@ class DocketSnapshotMixin:
 
                 pipeline.zrange(self.queue_key, 0, -1)
 
-                total_stream_messages: int
-                total_schedule_messages: int
                 pending_messages: list[RedisStreamPendingMessage]
                 stream_messages: list[tuple[RedisMessageID, RedisMessage]]
                 scheduled_task_keys: list[bytes]
@@ -140,8 +134,6 @@ class DocketSnapshotMixin:
                 now = datetime.now(timezone.utc)
                 try:
                     (
-                        total_stream_messages,
-                        total_schedule_messages,
                         pending_messages,
                         stream_messages,
                         scheduled_task_keys,
@@ -166,8 +158,6 @@ class DocketSnapshotMixin:
                     m for m in await pipeline.execute() if m
                 ]
 
-        total_tasks = total_stream_messages + total_schedule_messages
-
         # the in-memory backend's entries have bytes for keys
         pending_messages = [
             cast(
@@ -181,7 +171,7 @@ class DocketSnapshotMixin:
         }
 
         # Import here to avoid circular import
-        from .docket import Docket
+        from .docket import SAFEGUARD_PREFIX, Docket
 
         docket = cast(Docket, self)
 
@@ -193,7 +183,16 @@ class DocketSnapshotMixin:
             placeholder.__name__ = message[b"function"].decode()
             return placeholder
 
+        # Safeguards are internal: each stands for the task it guards
+        guarded_keys: set[str] = set()
+        listed_keys: set[str] = {key.decode() for key in scheduled_task_keys}
+
         for message_id, message in stream_messages:
+            key = message[b"key"].decode()
+            if key.startswith(SAFEGUARD_PREFIX):
+                guarded_keys.add(key.removeprefix(SAFEGUARD_PREFIX))
+                continue
+            listed_keys.add(key)
             execution = await Execution.from_message(
                 docket, message, fallback_task=placeholder(message)
             )
@@ -207,11 +206,23 @@ class DocketSnapshotMixin:
                 future.append(execution)  # pragma: no cover
 
         for message in queued_messages:
+            key = message[b"key"].decode()
+            if key.startswith(SAFEGUARD_PREFIX):
+                guarded_keys.add(key.removeprefix(SAFEGUARD_PREFIX))
+                continue
             execution = await Execution.from_message(
                 docket, message, fallback_task=placeholder(message)
             )
             future.append(execution)
 
+        # A task parked by a ConcurrencyLimit is neither in the stream nor in the queue
+        for key in sorted(guarded_keys - listed_keys):
+            parked = await docket.get_execution(key)
+            if parked and parked.state == ExecutionState.SCHEDULED:
+                future.append(parked)
+
+        total_tasks = len(future) + len(running)
+
         workers = await self.workers()
 
         return DocketSnapshot(now, total_tasks, future, running, workers)
-- 
2.43.0


From c289fbd552dc77683acd1851438f47fad7bd3115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:48 +0000
Subject: [PATCH 39/59] fix: a snapshot shows when a running task started, not
 when its lease was renewed

---
 src/docket/_docket_snapshot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/docket/_docket_snapshot.py b/src/docket/_docket_snapshot.py
index 0b177b0..582ed21 100644
--- a/src/docket/_docket_snapshot.py
+++ b/src/docket/_docket_snapshot.py
@@ -198,7 +198,8 @@ class DocketSnapshotMixin:
             )
             if message_id in pending_lookup:
                 worker_name = pending_lookup[message_id]["consumer"].decode()
-                started = now - timedelta(
+                # Renewing the lease makes the delivery look recent
+                started = execution.started_at or now - timedelta(
                     milliseconds=pending_lookup[message_id]["time_since_delivered"]
                 )
                 running.append(RunningExecution(execution, worker_name, started))
-- 
2.43.0


From f84d6d070b91596f007b7b7feb7669c550b311b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:52 +0000
Subject: [PATCH 40/59] fix: without retention, too, a task cancelled as it is
 rescheduled stays cancelled

---
 src/docket/execution.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 5345d4f..57227b0 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -125,10 +125,11 @@ async def _schedule(
 
         -- A newer schedule of this key owns the runs hash (and possibly the
         -- queue) by now, or the task has been cancelled: this run must not
-        -- bring the old one back.
+        -- bring the old one back.  (With execution_ttl=0 a cancelled task has
+        -- no record.)
         if generation > 0 then
             local current = redis.call('HGET', runs_key, 'generation')
-            if current and tonumber(current) > generation then
+            if not current or tonumber(current) > generation then
                 return 'SUPERSEDED'
             end
             if redis.call('HGET', runs_key, 'state') == 'cancelled' then
-- 
2.43.0


From 2c24ab59130f90071896177fe6aeb6729929d534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:36 +0000
Subject: [PATCH 41/59] fix: replacing a parked task takes its safeguard away

---
 src/docket/execution.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 57227b0..edb850d 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -238,6 +238,11 @@ async def _schedule(
             redis.call('DEL', waiter_stream)
         end
         redis.call('HDEL', runs_key, 'waiter_stream', 'waiter_entry_id')
+        -- Nor does it need its safeguard
+        local prefix = string.sub(parked_key, 1, -#task_key - 1)
+        local safeguard_key = '__safeguard__:' .. task_key
+        redis.call('ZREM', queue_key, safeguard_key)
+        redis.call('DEL', prefix .. safeguard_key, prefix .. 'runs:' .. safeguard_key)
     end
 
     -- Increment generation counter and start a fresh record: neither the expiry
-- 
2.43.0


From 00ebd5b978201d420c81fa742d86651ee132a680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:59 +0000
Subject: [PATCH 42/59] fix: an exception that cannot be stored or printed
 fails its task, not the worker

---
 src/docket/worker.py | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 377732f..4d4978e 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1207,8 +1207,12 @@ class Worker:
                 duration = log_context["duration"] = time.time() - start
                 TASKS_FAILED.add(1, counter_labels)
 
-                span.record_exception(e)
-                span.set_status(Status(StatusCode.ERROR, str(e)))
+                try:
+                    message = str(e)
+                    span.record_exception(e)
+                except Exception:
+                    message = "(no description available)"
+                span.set_status(Status(StatusCode.ERROR, message))
 
                 outcome = TaskOutcome(
                     duration=timedelta(seconds=duration),
@@ -1251,19 +1255,29 @@ class Worker:
                         # the result under this key belongs to the newest schedule
                         and not await execution.is_superseded()
                     ):
-                        pickled_exception = cloudpickle.dumps(e)  # type: ignore[arg-type]
-                        # Base64-encode for JSON serialization
-                        encoded_exception = base64.b64encode(pickled_exception).decode(
-                            "ascii"
-                        )
-                        result_key = execution.key
-                        ttl_seconds = int(self.docket.execution_ttl.total_seconds())
-                        await self.docket.result_storage.put(
-                            result_key, {"data": encoded_exception}, ttl=ttl_seconds
-                        )
+                        try:
+                            pickled_exception = cloudpickle.dumps(e)  # type: ignore[arg-type]
+                        except Exception:
+                            # The task may raise anything, even what can't be stored
+                            logger.warning(
+                                "Unable to store exception of %s",
+                                call,
+                                exc_info=True,
+                                extra=log_context,
+                            )
+                        else:
+                            # Base64-encode for JSON serialization
+                            encoded_exception = base64.b64encode(
+                                pickled_exception
+                            ).decode("ascii")
+                            result_key = execution.key
+                            ttl_seconds = int(self.docket.execution_ttl.total_seconds())
+                            await self.docket.result_storage.put(
+                                result_key, {"data": encoded_exception}, ttl=ttl_seconds
+                            )
 
                     # Mark execution as failed with error message
-                    error_msg = f"{type(e).__name__}: {str(e)}"
+                    error_msg = f"{type(e).__name__}: {message}"
                     await execution.mark_as_failed(error_msg, result_key=result_key)
             finally:
                 TASKS_RUNNING.add(-1, counter_labels)
-- 
2.43.0


From 7148c64649e7b4cd129d10d5b2e71a12bba52433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:09 +0000
Subject: [PATCH 43/59] fix: arguments that cannot be loaded fail their task,
 not the worker

---
 src/docket/execution.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index edb850d..7824cff 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -467,6 +467,15 @@ async def _terminal(
     ...
 
 
+def _unloadable(error: Exception) -> TaskFunction:
+    """Stands in for a function whose arguments couldn't be loaded."""
+
+    async def unloadable() -> None:
+        raise error
+
+    return unloadable
+
+
 def get_signature(function: Callable[..., Any]) -> inspect.Signature:
     signature = _uncalled_for_get_signature(function)
     CACHE_SIZE.set(len(_signature_cache), {"cache": "signature"})
@@ -666,11 +675,19 @@ class Execution:
                 )
             function = fallback_task
 
+        try:
+            args = cloudpickle.loads(message[b"args"])
+            kwargs = cloudpickle.loads(message[b"kwargs"])
+        except Exception as error:
+            # They may refer to what doesn't exist here, which is a failure of
+            # this task alone
+            function, args, kwargs = _unloadable(error), (), {}
+
         instance = cls(
             docket=docket,
             function=function,
-            args=cloudpickle.loads(message[b"args"]),
-            kwargs=cloudpickle.loads(message[b"kwargs"]),
+            args=args,
+            kwargs=kwargs,
             key=message[b"key"].decode(),
             when=datetime.fromisoformat(message[b"when"].decode()),
             attempt=int(message[b"attempt"].decode()),
-- 
2.43.0


From 804a74326648a813a102c65345491f4be6bb957a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:20 +0000
Subject: [PATCH 44/59] fix: an argument that cannot be compared does not make
 the worker fail at a strike

---
 src/docket/strikelist.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/docket/strikelist.py b/src/docket/strikelist.py
index 104424d..8865f44 100644
--- a/src/docket/strikelist.py
+++ b/src/docket/strikelist.py
@@ -441,24 +441,24 @@ class StrikeList:
         try:
             match operator:
                 case "==":
-                    return value == strike_value
+                    return bool(value == strike_value)
                 case "!=":
-                    return value != strike_value
+                    return bool(value != strike_value)
                 case ">":
-                    return value > strike_value
+                    return bool(value > strike_value)
                 case ">=":
-                    return value >= strike_value
+                    return bool(value >= strike_value)
                 case "<":
-                    return value < strike_value
+                    return bool(value < strike_value)
                 case "<=":
-                    return value <= strike_value
+                    return bool(value <= strike_value)
                 case "between":  # pragma: no branch
                     lower, upper = strike_value
-                    return lower <= value <= upper
+                    return bool(lower <= value <= upper)
                 case _:  # pragma: no cover
                     raise ValueError(f"Unknown operator: {operator}")
-        except (ValueError, TypeError):
-            # If we can't make the comparison due to incompatible types, just log the
+        except Exception:
+            # If we can't make the comparison, as with incompatible types, just log the
             # error and assume the task is not stricken
             logger.warning(
                 "Incompatible type for strike condition: %r %s %r",
-- 
2.43.0


From fd833c9ca06454d11b3fe41341eff4db8cbf8cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:20 +0000
Subject: [PATCH 45/59] fix: an argument that cannot be printed does not make
 the worker fail when logging it

---
 src/docket/annotations.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/docket/annotations.py b/src/docket/annotations.py
index 03c7380..6f64531 100644
--- a/src/docket/annotations.py
+++ b/src/docket/annotations.py
@@ -70,12 +70,16 @@ class Logged(Annotation):
         self.length_only = length_only
 
     def format(self, argument: Any) -> str:
-        if self.length_only:
-            if isinstance(argument, (dict, set)):
-                return f"{{len {len(argument)}}}"
-            elif isinstance(argument, tuple):
-                return f"(len {len(argument)})"
-            elif hasattr(argument, "__len__"):
-                return f"[len {len(argument)}]"
-
-        return repr(argument)
+        try:
+            if self.length_only:
+                if isinstance(argument, (dict, set)):
+                    return f"{{len {len(argument)}}}"
+                elif isinstance(argument, tuple):
+                    return f"(len {len(argument)})"
+                elif hasattr(argument, "__len__"):
+                    return f"[len {len(argument)}]"
+
+            return repr(argument)
+        except Exception:
+            # Describing a call must not keep it from being made
+            return f"<{type(argument).__name__}>"
-- 
2.43.0


From bc130baeee8b92f31d49b383f79169c247e4f00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 46/59] fix: a task is not completed before its dependencies
 have been cleaned up

---
 src/docket/worker.py | 83 +++++++++++++++++++++++---------------------
 1 file changed, 43 insertions(+), 40 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 4d4978e..619e674 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1076,6 +1076,7 @@ class Worker:
         )
 
         dependencies: dict[str, Dependency] = {}
+        result: Any = None
 
         with tracer.start_as_current_span(
             execution.function_name,
@@ -1140,50 +1141,52 @@ class Worker:
                         )
 
                     duration = log_context["duration"] = time.time() - start
-                    TASKS_SUCCEEDED.add(1, counter_labels)
 
-                    span.set_status(Status(StatusCode.OK))
+                # Only now that its dependencies have ended well, too
+                TASKS_SUCCEEDED.add(1, counter_labels)
 
-                    # Check for completion handler (e.g., Perpetual)
-                    completion_handler = get_single_dependency_of_type(
-                        dependencies, CompletionHandler
-                    )
-                    outcome = TaskOutcome(
-                        duration=timedelta(seconds=duration),
-                        result=result,
-                    )
-                    if completion_handler and await completion_handler.on_complete(
-                        execution, outcome
+                span.set_status(Status(StatusCode.OK))
+
+                # Check for completion handler (e.g., Perpetual)
+                completion_handler = get_single_dependency_of_type(
+                    dependencies, CompletionHandler
+                )
+                outcome = TaskOutcome(
+                    duration=timedelta(seconds=duration),
+                    result=result,
+                )
+                if completion_handler and await completion_handler.on_complete(
+                    execution, outcome
+                ):
+                    # Handler took responsibility (rescheduled, logged, recorded metrics)
+                    await execution.mark_as_completed(result_key=None)
+                else:
+                    # No handler or handler didn't handle - normal completion
+                    result_key = None
+                    if (
+                        result is not None
+                        and self.docket.execution_ttl
+                        # the result under this key belongs to the newest schedule
+                        and not await execution.is_superseded()
                     ):
-                        # Handler took responsibility (rescheduled, logged, recorded metrics)
-                        await execution.mark_as_completed(result_key=None)
-                    else:
-                        # No handler or handler didn't handle - normal completion
-                        result_key = None
-                        if (
-                            result is not None
-                            and self.docket.execution_ttl
-                            # the result under this key belongs to the newest schedule
-                            and not await execution.is_superseded()
-                        ):
-                            # Serialize and store result
-                            pickled_result = cloudpickle.dumps(result)  # type: ignore[arg-type]
-                            # Base64-encode for JSON serialization
-                            encoded_result = base64.b64encode(pickled_result).decode(
-                                "ascii"
-                            )
-                            result_key = execution.key
-                            ttl_seconds = int(self.docket.execution_ttl.total_seconds())
-                            await self.docket.result_storage.put(
-                                result_key, {"data": encoded_result}, ttl=ttl_seconds
-                            )
-                        await execution.mark_as_completed(result_key=result_key)
-                        logger.info(
-                            "↩ [%s] %s",
-                            format_duration(duration),
-                            call,
-                            extra=log_context,
+                        # Serialize and store result
+                        pickled_result = cloudpickle.dumps(result)  # type: ignore[arg-type]
+                        # Base64-encode for JSON serialization
+                        encoded_result = base64.b64encode(pickled_result).decode(
+                            "ascii"
                         )
+                        result_key = execution.key
+                        ttl_seconds = int(self.docket.execution_ttl.total_seconds())
+                        await self.docket.result_storage.put(
+                            result_key, {"data": encoded_result}, ttl=ttl_seconds
+                        )
+                    await execution.mark_as_completed(result_key=result_key)
+                    logger.info(
+                        "↩ [%s] %s",
+                        format_duration(duration),
+                        call,
+                        extra=log_context,
+                    )
             except AdmissionBlocked:
                 # Admission control (e.g. ConcurrencyLimit) is a rescheduling
                 # signal, not a task failure. Mark the span OK before re-raising
-- 
2.43.0


From f44cd20c37cc2c90eda9b61304ef75058d6b51c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:44 +0000
Subject: [PATCH 47/59] fix: a strike instruction that cannot be loaded does
 not keep others from taking effect

---
 src/docket/strikelist.py | 45 ++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/docket/strikelist.py b/src/docket/strikelist.py
index 8865f44..293362d 100644
--- a/src/docket/strikelist.py
+++ b/src/docket/strikelist.py
@@ -533,7 +533,10 @@ class StrikeList:
 
             if not parameter_strikes:
                 task_strikes.pop(restore.parameter, None)
-                if not task_strikes and restore.function not in self._stricken_functions:
+                if (
+                    not task_strikes
+                    and restore.function not in self._stricken_functions
+                ):
                     self.task_strikes.pop(restore.function, None)
 
         elif restore.function:
@@ -621,20 +624,30 @@ class StrikeList:
             for message_id, message in messages:
                 last_id = message_id
                 self._position = _stream_position(message_id)
-                instruction = StrikeInstruction.from_message(message)
-                self.update(instruction)
-                logger.info(
-                    "%s %r",
-                    ("Striking" if instruction.direction == "strike" else "Restoring"),
-                    instruction.call_repr(),
-                )
-
-                strikes_in_effect.add(
-                    1 if instruction.direction == "strike" else -1,
-                    {
-                        "docket.name": self.name,
-                        **instruction.labels(),
-                    },
-                )
+                try:
+                    instruction = StrikeInstruction.from_message(message)
+                    self.update(instruction)
+                    logger.info(
+                        "%s %r",
+                        (
+                            "Striking"
+                            if instruction.direction == "strike"
+                            else "Restoring"
+                        ),
+                        instruction.call_repr(),
+                    )
+
+                    strikes_in_effect.add(
+                        1 if instruction.direction == "strike" else -1,
+                        {
+                            "docket.name": self.name,
+                            **instruction.labels(),
+                        },
+                    )
+                except Exception:
+                    # It must not keep the others from taking effect
+                    logger.exception(
+                        "Unable to apply strike instruction %s", message_id
+                    )
 
         return last_id, initial_load_complete
-- 
2.43.0


From 49cd3009a54338c1ec0a42293a9e1c1ae651c67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:45 +0000
Subject: [PATCH 48/59] fix: tasks running at once don't report each other's
 progress

---
 src/docket/dependencies/_progress.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/docket/dependencies/_progress.py b/src/docket/dependencies/_progress.py
index 01daed8..7ae33ac 100644
--- a/src/docket/dependencies/_progress.py
+++ b/src/docket/dependencies/_progress.py
@@ -34,8 +34,10 @@ class Progress(Dependency["Progress"]):
 
     async def __aenter__(self) -> Progress:
         execution = current_execution.get()
-        self._progress = execution.progress
-        return self
+        # The declared instance is shared by all executions of the task
+        progress = Progress()
+        progress._progress = execution.progress
+        return progress
 
     @property
     def current(self) -> int | None:
-- 
2.43.0


From 94eec29951791d11ee681e05ae594c80e5add770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:00 +0000
Subject: [PATCH 49/59] fix: a new run doesn't announce the progress message of
 the previous one

---
 src/docket/execution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 7824cff..8478bd8 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -918,6 +918,8 @@ class Execution:
         self.started_at = started_at
         self.progress.current = 0
         self.progress.total = 100
+        self.progress.message = None
+        self.progress.updated_at = None
 
         return True
 
-- 
2.43.0


From 5cba30bc8af806acb25c1f97d7a212f827d82975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:40 +0000
Subject: [PATCH 50/59] fix: a superseded run's late reports don't alter its
 successor's progress

---
 src/docket/_execution_progress.py | 80 +++++++++++++++++++++----------
 src/docket/execution.py           |  1 +
 2 files changed, 56 insertions(+), 25 deletions(-)

diff --git a/src/docket/_execution_progress.py b/src/docket/_execution_progress.py
index 31b7c2d..131a40f 100644
--- a/src/docket/_execution_progress.py
+++ b/src/docket/_execution_progress.py
@@ -6,7 +6,6 @@ from contextlib import contextmanager
 from datetime import datetime, timezone
 from typing import (
     TYPE_CHECKING,
-    Any,
     AsyncGenerator,
     Generator,
     Literal,
@@ -30,9 +29,14 @@ async def _progress_write(
     progress_key: Key[str],
     payload: Arg[str],
     clear_message: Arg[bool],
+    generation: Arg[int],
     fields: Args[dict[str, str]],
 ) -> bytes:
     """
+    -- A newer run may be reporting now, or none at all any more
+    if generation > 0 and tonumber(redis.call('HGET', progress_key, 'generation') or '0') ~= generation then
+        return 'SUPERSEDED'
+    end
     local hset_args = {}
     for i = fields_start, #ARGV, 2 do
         hset_args[#hset_args + 1] = ARGV[i]
@@ -50,6 +54,30 @@ async def _progress_write(
     ...
 
 
+@redis_script
+async def _progress_increment(
+    redis: RedisClient,
+    *,
+    progress_key: Key[str],
+    amount: Arg[int],
+    updated_at: Arg[str],
+    payload_before: Arg[str],
+    payload_after: Arg[str],
+    generation: Arg[int],
+) -> int | bytes:
+    """
+    -- A newer run may be reporting now, or none at all any more
+    if generation > 0 and tonumber(redis.call('HGET', progress_key, 'generation') or '0') ~= generation then
+        return 'SUPERSEDED'
+    end
+    local current = redis.call('HINCRBY', progress_key, 'current', amount)
+    redis.call('HSET', progress_key, 'updated_at', updated_at)
+    redis.call('PUBLISH', progress_key, payload_before .. string.format('%.0f', current) .. payload_after)
+    return current
+    """
+    ...
+
+
 class ProgressEvent(TypedDict):
     type: Literal["progress"]
     key: str
@@ -93,6 +121,8 @@ class ExecutionProgress:
         self.docket = docket
         self.key = key
         self._redis_key = docket.key(f"progress:{key}")
+        # Reports of a run are only accepted while it's the current one
+        self._generation = 0
         self.current: int | None = None
         self.total: int = 1
         self.message: str | None = None
@@ -147,6 +177,7 @@ class ExecutionProgress:
                 progress_key=self._redis_key,
                 payload=json.dumps(payload),
                 clear_message=False,
+                generation=self._generation,
                 fields={"total": str(total), "updated_at": updated_at},
             )
         self.total = total
@@ -163,16 +194,31 @@ class ExecutionProgress:
 
         updated_at_dt = datetime.now(timezone.utc)
         updated_at = updated_at_dt.isoformat()
+        # The new current value is only known to the script, which completes this
+        payload = json.dumps(
+            {
+                "type": "progress",
+                "key": self.key,
+                "total": self.total,
+                "message": self.message,
+                "updated_at": updated_at,
+                "current": None,
+            }
+        )
         async with self.docket.redis() as redis:
-            async with redis.pipeline() as pipe:
-                pipe.hincrby(self._redis_key, "current", amount)
-                pipe.hset(self._redis_key, "updated_at", updated_at)
-                new_current, _ = await pipe.execute()
+            new_current = await _progress_increment(
+                redis,
+                progress_key=self._redis_key,
+                amount=amount,
+                updated_at=updated_at,
+                payload_before=payload.removesuffix("null}"),
+                payload_after="}",
+                generation=self._generation,
+            )
         # Update instance attributes using Redis return value
-        self.current = new_current
+        if isinstance(new_current, int):
+            self.current = max(new_current, self.current or 0)
         self.updated_at = updated_at_dt
-        # Publish update event with new current value
-        await self._publish({"current": new_current, "updated_at": updated_at})
 
     async def set_message(self, message: str | None) -> None:
         """Update the progress status message.
@@ -200,6 +246,7 @@ class ExecutionProgress:
                 progress_key=self._redis_key,
                 payload=json.dumps(payload),
                 clear_message=message is None,
+                generation=self._generation,
                 fields=fields,
             )
         self.message = message
@@ -231,23 +278,6 @@ class ExecutionProgress:
                     self.message = None
                     self.updated_at = None
 
-    async def _publish(self, data: dict[str, Any]) -> None:
-        """Publish progress update to Redis pub/sub channel.
-
-        Args:
-            data: Progress data to publish (partial update)
-        """
-        channel = self.docket.key(f"progress:{self.key}")
-        payload: ProgressEvent = {
-            "type": "progress",
-            "key": self.key,
-            "current": self.current if self.current is not None else 0,
-            "total": self.total,
-            "message": self.message,
-            "updated_at": data.get("updated_at"),
-        }
-        await self.docket._publish(channel, json.dumps(payload))
-
     async def subscribe(
         self, *, ready: asyncio.Event | None = None
     ) -> AsyncGenerator[ProgressEvent, None]:
diff --git a/src/docket/execution.py b/src/docket/execution.py
index 8478bd8..f3888d1 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -916,6 +916,7 @@ class Execution:
         self.state = ExecutionState.RUNNING
         self.worker = worker
         self.started_at = started_at
+        self.progress._generation = self._generation
         self.progress.current = 0
         self.progress.total = 100
         self.progress.message = None
-- 
2.43.0


From 1876a58923d210b8e819e0ceff6f626655180cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:45 +0000
Subject: [PATCH 51/59] fix: a worker that comes back is listed with the tasks
 it offers now

---
 src/docket/worker.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 619e674..3135c7b 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1343,6 +1343,8 @@ class Worker:
                                 pipeline.zremrangebyscore(task_workers_set, 0, oldest)
                                 pipeline.zadd(task_workers_set, {self.name: now})
 
+                            # An earlier worker of this name may have offered others
+                            pipeline.delete(self.worker_tasks_set(self.name))
                             pipeline.sadd(self.worker_tasks_set(self.name), *task_names)
                             pipeline.expire(
                                 self.worker_tasks_set(self.name),
-- 
2.43.0


From 32b12c2b329ec85552afd89ca95ce0595d5e4d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:53 +0000
Subject: [PATCH 52/59] fix: a docket's running tasks are not cancelled through
 another docket of a similar name

---
 src/docket/dependencies/_concurrency.py | 2 +-
 src/docket/docket.py                    | 7 +++++++
 src/docket/worker.py                    | 6 +++++-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index bd8efc0..c3600bc 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -773,7 +773,7 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
         cancelled tasks never run regardless of whether we observe the
         publish.
         """
-        pattern = f"{docket.prefix}:cancel:*"
+        pattern = docket.cancel_pattern
         async with docket.redis() as redis:
             pubsub = redis.pubsub()
             try:
diff --git a/src/docket/docket.py b/src/docket/docket.py
index bf10fde..a3dec1e 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -1,6 +1,7 @@
 import importlib
 import json
 import logging
+import re
 from contextlib import AsyncExitStack, asynccontextmanager
 from datetime import datetime, timedelta, timezone
 from types import TracebackType
@@ -770,6 +771,12 @@ class Docket(DocketSnapshotMixin):
         """Return the Redis pub/sub channel for cancellation signals for a task."""
         return self.key(f"cancel:{task_key}")
 
+    @property
+    def cancel_pattern(self) -> str:
+        """Return the Redis pub/sub pattern matching this docket's cancel channels."""
+        prefix = re.sub(r"([*?\[\]\\])", r"\\\1", self.prefix)
+        return f"{prefix}:cancel:*"
+
     @property
     def results_collection(self) -> str:
         """Return the collection name for result storage."""
diff --git a/src/docket/worker.py b/src/docket/worker.py
index 3135c7b..28578d8 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1395,7 +1395,7 @@ class Worker:
         if session is None:
             return  # pragma: no cover
 
-        cancel_pattern = self.docket.key("cancel:*")
+        cancel_pattern = self.docket.cancel_pattern
         log_context = self._log_context()
         while not session.stopping.is_set():
             try:
@@ -1434,6 +1434,10 @@ class Worker:
         data = message["data"]
         key: TaskKey = data.decode() if isinstance(data, bytes) else data
 
+        # The pattern also matches channels of a docket named "<ours>:cancel"
+        if message["channel"].decode() != self.docket.cancel_channel(key):
+            return
+
         if task := self._tasks_by_key.get(key):  # pragma: no branch
             logger.info(
                 "Cancelling running task %r",
-- 
2.43.0


From 0d2c867dc878333b36e5b74eccb1908b39293951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:28 +0000
Subject: [PATCH 53/59] fix: a cancelled run whose retry the same request
 cancelled is announced once

---
 src/docket/execution.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index f3888d1..9f2559b 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -410,7 +410,11 @@ async def _terminal(
     if generation > 0 then
         local current = redis.call('HGET', runs_key, 'generation')
         if not current or tonumber(current) > generation then
-            redis.call('PUBLISH', state_channel, state_payload)
+            -- The cancellation of a run whose retry was cancelled by the same
+            -- request has been announced already.
+            if not (state == 'cancelled' and redis.call('HGET', runs_key, 'state') == 'cancelled') then
+                redis.call('PUBLISH', state_channel, state_payload)
+            end
             -- Only DEL the progress hash if it belongs to us (matching
             -- generation tag) or is untagged (pre-fix / pre-tracking data,
             -- preserve the prior unconditional-DEL behaviour).  A newer
-- 
2.43.0


From ce100d09fd2b051e67c49b85fff3047e1317a0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:21 +0000
Subject: [PATCH 54/59] fix: a worker starts nothing before it knows the
 strikes in effect

It used to wait for them only before seeding automatic tasks: a worker without
those could run tasks that had been struck long before it started.
---
 src/docket/worker.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 28578d8..366961d 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -799,6 +799,15 @@ class Worker:
                         and not stopping.is_set()
                     ):
                         await _wait_for_event(session.cancellation_ready, 0.1)
+                    # Nothing may start before the strikes in effect are known
+                    while not stopping.is_set():
+                        try:
+                            await asyncio.wait_for(
+                                self.docket.wait_for_strikes_loaded(), 0.1
+                            )
+                            break
+                        except asyncio.TimeoutError:
+                            continue
                     if stopping.is_set():
                         session.stopping.set()
                         return
-- 
2.43.0


From 18c65f66b459876ec350910b3eebdb2a1b7c55ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:34 +0000
Subject: [PATCH 55/59] fix: the gauge of strikes in effect counts each strike
 once

---
 src/docket/strikelist.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/docket/strikelist.py b/src/docket/strikelist.py
index 293362d..92f360f 100644
--- a/src/docket/strikelist.py
+++ b/src/docket/strikelist.py
@@ -178,6 +178,7 @@ class StrikeList:
     task_strikes: TaskStrikes
     parameter_strikes: ParameterStrikes
     _stricken_functions: set[str]
+    _counted: dict[tuple[Hashable, ...], dict[str, str]]
     _position: tuple[int, int]
     _conditions: list[Callable[["Execution"], bool]]
     _redis: RedisConnection | None
@@ -207,6 +208,7 @@ class StrikeList:
         self.task_strikes = {}
         self.parameter_strikes = {}
         self._stricken_functions = set()
+        self._counted = {}
         self._position = (0, 0)
         self._conditions = [self._matches_task_or_parameter_strike]
         self._redis = RedisConnection(url) if url else None
@@ -564,6 +566,20 @@ class StrikeList:
             if not parameter_strikes:
                 self.parameter_strikes.pop(restore.parameter, None)
 
+    def _count(self, instruction: StrikeInstruction, strikes_in_effect: Any) -> None:
+        """Count the strikes in effect, which striking again or restoring what was
+        never struck doesn't change."""
+        key: tuple[Hashable, ...] = (instruction.function,)
+        if instruction.parameter:
+            key += (instruction.parameter, instruction.operator, instruction.value)
+
+        if instruction.direction == "restore":
+            if labels := self._counted.pop(key, None):
+                strikes_in_effect.add(-1, labels)
+        elif key not in self._counted:
+            self._counted[key] = {"docket.name": self.name, **instruction.labels()}
+            strikes_in_effect.add(1, self._counted[key])
+
     async def _monitor_strikes(self) -> NoReturn:
         """Background task that monitors Redis for strike updates."""
         from .instrumentation import REDIS_DISRUPTIONS, STRIKES_IN_EFFECT
@@ -637,13 +653,7 @@ class StrikeList:
                         instruction.call_repr(),
                     )
 
-                    strikes_in_effect.add(
-                        1 if instruction.direction == "strike" else -1,
-                        {
-                            "docket.name": self.name,
-                            **instruction.labels(),
-                        },
-                    )
+                    self._count(instruction, strikes_in_effect)
                 except Exception:
                     # It must not keep the others from taking effect
                     logger.exception(
-- 
2.43.0


From a0a32bcf4338d4a50fcbf54a59512ef2b3d84f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:19 +0000
Subject: [PATCH 56/59] fix: a strike that can't be compared keeps the argument
 out of the log

---
 src/docket/strikelist.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/docket/strikelist.py b/src/docket/strikelist.py
index 92f360f..6eafd07 100644
--- a/src/docket/strikelist.py
+++ b/src/docket/strikelist.py
@@ -463,10 +463,11 @@ class StrikeList:
             # If we can't make the comparison, as with incompatible types, just log the
             # error and assume the task is not stricken
             logger.warning(
-                "Incompatible type for strike condition: %r %s %r",
+                "Incompatible type for strike condition: %r %s <%s>",
                 strike_value,
                 operator,
-                value,
+                # not the value, only arguments annotated as Logged are logged
+                type(value).__name__,
                 exc_info=True,
             )
             return False
-- 
2.43.0


From fe8dc151686d36d2c402e2653216f78fa85eee76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:19 +0000
Subject: [PATCH 57/59] fix: blocking a stricken task leaves a newer schedule
 of its key known

---
 src/docket/execution.py | 2 ++
 src/docket/worker.py    | 6 +-----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 9f2559b..6a3f6c6 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -450,6 +450,8 @@ async def _terminal(
         hset_args[#hset_args + 1] = ARGV[i + 1]
     end
     redis.call('HSET', runs_key, unpack(hset_args))
+    -- A task that was never claimed, like a stricken one, is still known
+    redis.call('HDEL', runs_key, 'known', 'stream_id')
 
     if ttl_seconds > 0 then
         redis.call('EXPIRE', runs_key, ttl_seconds)
diff --git a/src/docket/worker.py b/src/docket/worker.py
index 366961d..009853c 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1035,10 +1035,6 @@ class Worker:
 
     async def _delete_known_task(self, redis: Redis, execution: Execution) -> None:
         logger.debug("Deleting known task", extra=self._log_context())
-        # Delete known/stream_id from runs hash to allow task rescheduling
-        runs_key = self.docket.runs_key(execution.key)
-        await redis.hdel(runs_key, "known", "stream_id")
-
         # TODO: Remove in next breaking release (v0.14.0) - legacy key cleanup
         known_task_key = self.docket.known_task_key(execution.key)
         stream_id_key = self.docket.stream_id_key(execution.key)
@@ -1051,10 +1047,10 @@ class Worker:
         call = execution.call_repr()
 
         if self.docket.strike_list.is_stricken(execution):
+            await execution.mark_as_cancelled()
             async with self.docket.redis() as redis:
                 await self._delete_known_task(redis, execution)
 
-            await execution.mark_as_cancelled()
             logger.warning("🗙 %s", call, extra=log_context)
             TASKS_STRICKEN.add(1, counter_labels | {"docket.where": "worker"})
             return
-- 
2.43.0


From f997a919576535aa3c91ccdb9f8527d0436c55a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:19 +0000
Subject: [PATCH 58/59] fix: an argument is logged only if its own parameter
 says so

---
 src/docket/execution.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 6a3f6c6..5d14ff9 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -729,17 +729,31 @@ class Execution:
 
         signature = get_signature(self.function)
         logged_parameters = Logged.annotated_parameters(signature)
-        parameter_names = list(signature.parameters.keys())
+        parameters = list(signature.parameters.values())
+        positional = [
+            p.name
+            for p in parameters
+            if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)
+        ]
+        keywords = {
+            p.name
+            for p in parameters
+            if p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)
+        }
+        # whatever is left over after the named parameters goes to *args
+        for p in parameters:
+            if p.kind is p.VAR_POSITIONAL:
+                positional += [p.name] * len(self.args)
 
-        for i, argument in enumerate(self.args[: len(parameter_names)]):
-            parameter_name = parameter_names[i]
+        for parameter_name, argument in zip(positional, self.args):
             if logged := logged_parameters.get(parameter_name):
                 arguments.append(logged.format(argument))
             else:
                 arguments.append("...")
 
         for parameter_name, argument in self.kwargs.items():
-            if logged := logged_parameters.get(parameter_name):
+            logged = logged_parameters.get(parameter_name)
+            if logged and parameter_name in keywords:
                 arguments.append(f"{parameter_name}={logged.format(argument)}")
             else:
                 arguments.append(f"{parameter_name}=...")
-- 
2.43.0


From d0bd8db2b354ea5c416d75e3ba1cce31434e2589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:04 +0000
Subject: [PATCH 59/59] fix: the due message of a key whose record is gone
 leaves none behind

---
 src/docket/execution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 5d14ff9..49f2033 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -323,6 +323,8 @@ async def _claim(
         if not current then
             -- Runs hash was cleaned up (execution_ttl=0 after
             -- a newer generation completed).  This message is stale.
+            -- Moving it to the stream may have left a record that nobody owns.
+            redis.call('DEL', runs_key)
             if message_id ~= '' then
                 redis.call('XACK', stream_key, worker_group_name, message_id)
                 redis.call('XDEL', stream_key, message_id)
-- 
2.43.0

