W, X, DK = "worker.py", "execution.py", "docket.py"
CC, SN, PR = "dependencies/_concurrency.py", "_docket_snapshot.py", "_execution_progress.py"
# claims, redelivery, loops
m("c01-redelivery-no-slot-check", "C01 C02", [(W, "                                if available_slots <= 0:\n                                    break\n", "                                if available_slots <= 0 or messages and is_redelivery:\n                                    break\n")])
m("c01-safety-net-acks-early", "C01", [(W, "                if not execution._acked:\n", "                if not execution._acked or execution.redelivered and False:\n                    execution._acked = True\n                    async with self.docket.redis() as r: await r.xack(self.docket.stream_key, self.docket.worker_group_name, message_id)\n                if not execution._acked:\n")])
m("c01-autoclaim-half", "C01 C02", [(W, "                            self.redelivery_timeout.total_seconds() * 1000\n", "                            self.redelivery_timeout.total_seconds() * 1000 * 0.25\n")])
m("c02-renew-only-listed", "C02", [(W, "            message_ids = list(active_messages.values())\n", "            message_ids = [m for t, m in list(active_messages.items()) if t in {*self._tasks_by_key.values()}]\n")])
m("c02-renew-first-missing", "C02 C24", [(W, "            message_ids = list(active_messages.values())\n", "            message_ids = list(active_messages.values())[-self.concurrency + 1:]\n")])
m("c03-remove-heartbeat-raises", "C03 C24", [(W, '''            logger.exception(
                "Error clearing worker heartbeat",
                exc_info=True,
                extra=self._log_context(),
            )
''', '''            raise
''')])
m("c03-listener-not-ready-again", "C03 C07", [(W, '''                if await _wait_for_event(session.stopping, 1):
                    return
            except Exception:''', '''                cancel_pattern = self.docket.cancel_channel("")
                if await _wait_for_event(session.stopping, 1):
                    return
            except Exception:''')])
m("c03-heartbeat-connerror-ends", "C03 C30", [(W, '''            except ConnectionError:
                REDIS_DISRUPTIONS.add(1, self.labels())
                logger.exception(
                    "Error sending worker heartbeat",
                    exc_info=True,
                    extra=self._log_context(),
                )
''', '''            except ConnectionError:
                return
''')])
m("c07-listener-unknown-raises", "C07", [(W, "        if task := self._tasks_by_key.get(key):  # pragma: no branch\n", "        if (task := self._tasks_by_key.get(key)) or not key:  # pragma: no branch\n            if len(self._tasks_by_key) > 1 and task is list(self._tasks_by_key.values())[0]: task = self._tasks_by_key[key]\n            self._tasks_by_key.pop(key)\n")])
m("c07-process-completed-pops-any", "C07", [(W, "                if self._tasks_by_key.get(execution.key) is task:\n", "                if execution.key in self._tasks_by_key:\n")])
m("c07-cancelled-handled-as-fail", "C07 C19", [(W, "                    await execution.mark_as_cancelled()\n\n                # Safety net", "                    await execution.mark_as_failed(error=None)\n\n                # Safety net")])
m("c12-lock-blocks", "C12", [(W, "                            if await self._automatic_perpetual_is_live(redis, key):\n                                continue\n", "                            if await self._automatic_perpetual_is_live(redis, key):\n                                break\n")])
m("c12-live-known-only-hash", "C12", [(W, '        if (await redis.hget(runs_key, "known")) is not None:\n', '        if await redis.exists(runs_key):\n')])
m("c12-no-wait-strikes", "C12 C08", [(W, "        await self.docket.wait_for_strikes_loaded()\n", "        pass\n")])
m("c25-check-only-stream", "C25", [(W, "                return stream_len > 0 or queue_len > 0\n", "                return stream_len > 0 or queue_len > 1\n")])
m("c25-atmost-counts-redelivery", "C25", [(W, "        if execution.key in self._execution_counts:\n", "        if execution.key in self._execution_counts and execution.attempt == 1:\n")])
m("c25-condition-left", "C25 C08", [(W, "            self.docket.strike_list.remove_condition(has_reached_max_iterations)\n", "            pass\n")])
m("c24-drain-not-listed", "C24", [(W, "                    await draining\n                    await process_completed_tasks()\n", "                    await draining\n                    if exc_type is None: await process_completed_tasks()\n")])
m("c24-leases-stop-at-shutdown", "C24 C02", [(W, '''                    infra_stack.push_async_exit(finish_active_tasks)
''', '''                    infra_stack.push_async_exit(finish_active_tasks)
                    infra_stack.callback(session.stopping.set)
''')])
m("c30-tasks-listed-short", "C30", [(W, "                                task_workers_set = self.task_workers_set(task_name)\n                                pipeline.zremrangebyscore(task_workers_set, 0, oldest)\n", "                                task_workers_set = self.task_workers_set(task_name)\n")])
m("c30-remove-only-own-set", "C30", [(W, "                pipeline.delete(self.worker_tasks_set(self.name))\n                await pipeline.execute()", "                await pipeline.execute()")])
# concurrency limits
m("c14-stale-not-threshold", "C14", [(CC, "        if is_redelivery and slot_time <= stale_threshold then", "        if is_redelivery or slot_time <= stale_threshold then")])
m("c14-limit-lenient", "C14", [(CC, "        local stale_slots = redis.call('ZRANGEBYSCORE', slots_key, 0, stale_threshold, 'LIMIT', 0, 1)", "        local stale_slots = redis.call('ZRANGEBYSCORE', slots_key, 0, current_time - (current_time - stale_threshold) / 4, 'LIMIT', 0, 1)")])
m("c15-no-wake-when-stale", "C15", [(CC, "    if waiters_count > 0 then\n        local stale", "    if waiters_count > 1 then\n        local stale")])
m("c15-capacity-counts-dead", "C15", [(CC, '''            if redis.call('HGET', runs_key, 'waiter_entry_id') ~= waiter_id then''', '''            if redis.call('HGET', runs_key, 'waiter_entry_id') ~= waiter_id then
                capacity = capacity - 1''')] if False else [])
m("c15-safeguard-never", "C15", [(CC, "            datetime.now(timezone.utc) + redelivery_timeout,\n", "            datetime.now(timezone.utc) + redelivery_timeout * 100,\n")])
m("c15-release-only-ok", "C15 C14", [(CC, "        stack.push_async_callback(limit._release_and_wake)\n", "        stack.push_async_exit(lambda t, v, b: limit._release_and_wake() if t is None or issubclass(t, Exception) else asyncio.sleep(0))\n")])
m("c14-cancelled-park-check", "C06 C14", [(CC, '''        if not current or tonumber(current) > generation
            or redis.call('HGET', runs_key, 'state') == 'cancelled' then''', '''        if not current or tonumber(current) > generation then''')])
m("c15-cleanup-drops-new", "C15 C06", [(CC, '''    if redis.call('HGET', runs_key, 'waiter_entry_id') ~= waiter_entry_id
        or redis.call('HGET', runs_key, 'state') == 'scheduled' then''', '''    if redis.call('HGET', runs_key, 'waiter_entry_id') ~= waiter_entry_id then''')])
m("c14-renewal-stops-on-error", "C14", [(CC, "                logger.warning(", "                return logger.warning(")])
# gates
m("c16-redelivered-counted-again", "C16", [("dependencies/_ratelimit.py", '''    if redis.call('ZSCORE', ratelimit_key, member) then
        return {1, 0}
    end
''', '')])
m("c16-give-back-always", "C16", [("dependencies/_ratelimit.py", "                if exc_type is not None and issubclass(exc_type, AdmissionBlocked):", "                if exc_type is not None:")])
m("c17-takeover-early", "C17", [("dependencies/_debounce.py", "    if now_ms - last_seen >= settle_ms then\n        redis.call('SET', winner_key", "    if now_ms - last_seen >= settle_ms / 2 then\n        redis.call('SET', winner_key")])
m("c17-drop-settles", "C17", [("dependencies/_debounce.py", "            local remaining = settle_ms - elapsed\n", "            local remaining = math.max(settle_ms - elapsed, 1)\n            if elapsed == 0 then redis.call('DEL', seen_key) end\n")])
m("c18-holder-by-key", "C18", [("dependencies/_cooldown.py", '        holder = f"{docket.name}:{execution.key}:{execution.message_id!r}"', '        holder = f"{docket.name}:{execution.key}"')])
# records, results, progress, snapshot
m("c23-limit-1000", "C23", [(SN, "                    count=2**31 - 1,\n", "                    count=100,\n")])
m("c23-guarded-hidden", "C23", [(SN, "        for key in sorted(guarded_keys - listed_keys):", "        for key in sorted(guarded_keys - listed_keys)[:10]:")])
m("c23-safeguard-prefix-any", "C23", [(SN, "        for message in queued_messages:\n            key = message[b\"key\"].decode()\n            if key.startswith(SAFEGUARD_PREFIX):", "        for message in queued_messages:\n            key = message[b\"key\"].decode()\n            if key.startswith(\"__\"):")])
m("c28-total-lost", "C28", [(PR, '''            "current": self.current if self.current is not None else 0,
            "total": self.total,
            "message": message,''', '''            "current": self.current or 0,
            "total": self.total or 1,
            "message": message or self.message,''')])
m("c28-increment-local", "C28", [(PR, "            self.current = max(new_current, self.current or 0)", "            self.current = (self.current or 0) + amount")])
m("c28-generation-greater", "C28", [(PR, '''    local current = redis.call('HINCRBY', progress_key, 'current', amount)''', '''    if redis.call('HGET', progress_key, 'total') and amount > tonumber(redis.call('HGET', progress_key, 'total')) then amount = tonumber(redis.call('HGET', progress_key, 'total')) end
    local current = redis.call('HINCRBY', progress_key, 'current', amount)''')])
m("c31-interval-by-count", "C31", [("agenda.py", "            interval = over / (task_count - 1)", "            interval = timedelta(seconds=int(over.total_seconds() / (task_count - 1) * 1000) / 1000)")])
m("c31-registers-late", "C31", [("agenda.py", '''            key = explicit_key if explicit_key is not None else str(uuid7())''', '''            key = explicit_key or str(uuid7())''')])
m("c31-jitter-sorted", "C31", [("agenda.py", "            schedule_times = jittered_times\n", "            schedule_times = jittered_times if over > jitter else schedule_times\n")])
m("c20-result-before-mark", "C20", [(X, "    async def mark_as_failed(", "    async def mark_as_failed(")] if False else [])
m("c29-scheduler-key-late", "C29", [(W, "                        now_timestamp=datetime.now(timezone.utc).timestamp(),\n", "                        now_timestamp=int(datetime.now(timezone.utc).timestamp()),\n")])
m("c29-early-rounding", "C29", [(W, "                        now_timestamp=datetime.now(timezone.utc).timestamp(),\n", "                        now_timestamp=round(datetime.now(timezone.utc).timestamp(), 1),\n")])
m("c35-kwargs-of-old", "C35", [(W, '''        local tasks = redis.call('ZRANGEBYSCORE', queue_key, 0, now_timestamp)
''', '''        local tasks = redis.call('ZRANGEBYSCORE', queue_key, 0, now_timestamp)
''')] if False else [])
m("c35-redelivered-args-cached", "C35", [(X, '''            args = cloudpickle.loads(message[b"args"])
''', '''            args = cloudpickle.loads(message[b"args"])
            if redelivered and isinstance(args, tuple): args = tuple(tuple(a) if isinstance(a, list) else a for a in args)
''')])
m("c35-record-keeps-args", "C35", [(X, '''                'function', function_name,
                'args', args_data,
                'kwargs', kwargs_data
            )
            redis.call('HDEL', runs_key, 'stream_id')''', '''                'function', function_name,
                'args', args_data
            )
            redis.call('HDEL', runs_key, 'stream_id')''')])
