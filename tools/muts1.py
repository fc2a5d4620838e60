W, X, DK = "worker.py", "execution.py", "docket.py"
m("c01-autoclaim-count-one-page", "C01", [(W, '''                    _, redeliveries, *_ = await redis.xautoclaim(''', '''                    _, redeliveries, *_ = await redis.xautoclaim('''), ])
m("c01-ack-at-claim", "C01", [(X, "    -- Delete known/stream_id fields to allow task rescheduling\n    redis.call('HDEL', runs_key, 'known', 'stream_id')\n\n    -- TODO: Remove in next breaking release (v0.14.0) - legacy key cleanup\n    redis.call('DEL', known_key, stream_id_key)\n",
  "    -- Delete known/stream_id fields to allow task rescheduling\n    redis.call('HDEL', runs_key, 'known', 'stream_id')\n    if message_id ~= '' and redis.call('HGET', runs_key, 'attempts') then redis.call('XACK', stream_key, worker_group_name, message_id) end\n    redis.call('HINCRBY', runs_key, 'attempts', 1)\n\n    -- TODO: Remove in next breaking release (v0.14.0) - legacy key cleanup\n    redis.call('DEL', known_key, stream_id_key)\n")])
m("c02-reschedule-no-ack", "C02 C01 C10", [(X, "        redis.call('XACK', stream_key, worker_group_name, reschedule_message_id)\n        redis.call('XDEL', stream_key, reschedule_message_id)\n\n        -- A newer", "        if is_immediate then\n            redis.call('XACK', stream_key, worker_group_name, reschedule_message_id)\n        end\n        redis.call('XDEL', stream_key, reschedule_message_id)\n\n        -- A newer")])
m("c02-renew-half", "C02", [(W, "renewal_interval = self.redelivery_timeout.total_seconds() / 4", "renewal_interval = self.redelivery_timeout.total_seconds()")])
m("c03-scheduler-dies", "C03 C29", [(W, '''            except Exception:  # pragma: no cover
                logger.exception(
                    "Error in scheduler loop",
                    exc_info=True,
                    extra=log_context,
                )
''', '''            except Exception:  # pragma: no cover
                logger.exception(
                    "Error in scheduler loop",
                    exc_info=True,
                    extra=log_context,
                )
                return
''')])
m("c03-reseed-dies", "C12 C03", [(W, '''            except Exception:  # pragma: no cover
                logger.exception(
                    "Error re-seeding automatic perpetual tasks",
                    extra=log_context,
                )
''', '''            except Exception:  # pragma: no cover
                logger.exception(
                    "Error re-seeding automatic perpetual tasks",
                    extra=log_context,
                )
                return
''')])
m("c03-renewal-dies", "C02 C03", [(W, '''                logger.warning("Failed to renew leases", exc_info=True)''', '''                logger.warning("Failed to renew leases", exc_info=True)
                return''')])
m("c03-cancellation-listener-dies", "C07 C03", [(W, '''                if await _wait_for_event(session.stopping, 1):
                    return
            except Exception:
                if session.stopping.is_set():
                    return  # pragma: no cover
                logger.exception(
                    "Error in cancellation listener",''', '''                return
            except Exception:
                if session.stopping.is_set():
                    return  # pragma: no cover
                logger.exception(
                    "Error in cancellation listener",''')])
m("c04-running-not-checked", "C04", [(X, '''            if state == 'running' then
                return 'EXISTS'
            end
''', '''            if state == 'running' and redis.call('HEXISTS', runs_key, 'error') == 0 and tonumber(when_timestamp) <= tonumber(redis.call('HGET', runs_key, 'when') or '0') then
                return 'EXISTS'
            end
''')])
m("c05-replace-keeps-queue", "C05", [(X, '''        redis.call('ZREM', queue_key, task_key)
        redis.call('DEL', parked_key)

        -- TODO: Remove in next breaking release (v0.14.0) - clean up legacy keys''', '''        if not existing_message_id then
            redis.call('ZREM', queue_key, task_key)
        end
        redis.call('DEL', parked_key)

        -- TODO: Remove in next breaking release (v0.14.0) - clean up legacy keys''')])
m("c05-due-forgets-stream-id", "C05 C06", [(W, "'state', 'queued', 'stream_id', message_id)", "'state', 'queued')")])
m("c05-generation-not-moved", "C05", [(W, "                    'generation', task['generation'] or '0'\n", "                    'generation', '0'\n")])
m("c06-cancel-claim-window", "C06 C07", [(X, '''        if redis.call('HGET', runs_key, 'state') == 'cancelled' then
            if message_id''', '''        if redis.call('HGET', runs_key, 'state') == 'cancelled' and not message_id then
            if message_id''')])
m("c06-cancel-leaves-known", "C06", [(DK, "    redis.call('HDEL', runs_key, 'known', 'stream_id')\n", "    if message_id then redis.call('HDEL', runs_key, 'known', 'stream_id') end\n")])
m("c07-cancel-publishes-before", "C07", [(W, '''        if task := self._tasks_by_key.get(key):''', '''        if (task := self._tasks_by_key.get(key)) and len(self._tasks_by_key) < self.concurrency:''')])
m("c07-cancelled-then-failed", "C07 C19", [(X, '''    if state == 'cancelled' and (previous == 'completed' or previous == 'failed') then''', '''    if state == 'cancelled' and previous == 'completed' then''')])
m("c08-defaults-ignored", "C08", [("strikelist.py", "            bound_args.apply_defaults()\n", "            if not execution.kwargs:\n                bound_args.apply_defaults()\n")])
m("c08-only-first-source", "C08", [("strikelist.py", "            for strike_source in [task_strikes, self.parameter_strikes]:", "            for strike_source in [task_strikes or self.parameter_strikes]:")])
m("c09-position-equal", "C09", [("strikelist.py", "        if _stream_position(message_id) > self._position:", "        if _stream_position(message_id) >= self._position or not self._position[1]:")])
m("c10-backoff-off-by-one", "C10", [("dependencies/_retry.py", "            if calculated_delay > self.maximum_delay:", "            if calculated_delay > self.maximum_delay * 2:")])
m("c10-attempt-lost-on-park", "C10 C14", [("dependencies/_retry.py", "        execution.attempt += 1\n", "        execution.attempt = max(execution.attempt + 1, 2) if not execution.redelivered else execution.attempt\n")])
m("c11-cancel-revived", "C11 C06", [(X, '''            if not current or tonumber(current) > generation
                or redis.call('HGET', runs_key, 'state') == 'cancelled' then''', '''            if not current or tonumber(current) > generation then''')])
m("c11-args-of-perpetuate-lost", "C11", [("dependencies/_perpetual.py", '''    def perpetuate(self, *args: Any, **kwargs: Any) -> None:
        self.args = args
        self.kwargs = kwargs''', '''    def perpetuate(self, *args: Any, **kwargs: Any) -> None:
        self.args = args
        self.kwargs = {**self.kwargs, **kwargs}''')])
m("c12-live-only-known", "C12", [(W, '''        return (await redis.hget(runs_key, "state")) == b"running"
''', '''        return False
''')])
m("c12-lock-not-released", "C12", [(W, '''            except LockError:  # pragma: no cover
                return
''', '''            except LockError:  # pragma: no cover
                await self._schedule_seeds(redis) if False else None
                return
'''), (W, '''                    blocking=False,
                ):
                    for task_function''', '''                    blocking=False,
                ):
                    await asyncio.sleep(0)
                    for task_function''')])
m("c13-restart-skips", "C13", [("dependencies/_cron.py", '''        while when.astimezone(timezone.utc) <= self._latest:''', '''        while when.astimezone(timezone.utc) < self._latest:''')])
m("c14-release-any", "C14", [("dependencies/_ratelimit.py", "    redis.call('ZREMRANGEBYSCORE', ratelimit_key, '-inf', cutoff)", "    redis.call('ZREMRANGEBYSCORE', ratelimit_key, '-inf', cutoff + 1)")])
m("c16-window-edge", "C16", [("dependencies/_ratelimit.py", "    local retry_after = oldest_score + window_ms - now_ms\n", "    local retry_after = math.floor((oldest_score + window_ms - now_ms) / 2)\n")])
m("c16-blocked-counted", "C16", [("dependencies/_ratelimit.py", "    if count < limit then", "    if count <= limit and redis.call('EXISTS', ratelimit_key) == 1 and count > limit - 1 and tonumber(redis.call('ZSCORE', ratelimit_key, redis.call('ZRANGE', ratelimit_key, -1, -1)[1])) == now_ms or count < limit then")])
m("c17-settle-from-first", "C17", [("dependencies/_debounce.py", '''    -- Someone else is the winner: update last_seen and refresh TTLs
    redis.call('SET', seen_key, tostring(now_ms), 'PX', ttl_ms)''', '''    -- Someone else is the winner: update last_seen and refresh TTLs
    redis.call('SET', seen_key, redis.call('GET', seen_key), 'PX', ttl_ms)''')])
m("c18-window-on-give-back", "C18", [("dependencies/_cooldown.py", "            if exc_type is not None and issubclass(exc_type, AdmissionBlocked):", "            if exc_type is not None:")])
m("c19-queued-not-published", "C19", [(W, "                redis.call('PUBLISH', channel, payload)\n\n                due_work", "                if due_work == 0 then redis.call('PUBLISH', channel, payload) end\n\n                due_work")])
m("c19-started-at-kept", "C19 C23", [(X, "        redis.call('HDEL', runs_key, 'worker', 'started_at')\n", "        if not is_immediate then redis.call('HDEL', runs_key, 'worker', 'started_at') end\n")])
m("c20-generation-strict", "C20", [(X, 'and event.get("generation", generation) >= generation', 'and event.get("generation", 0) >= generation')])
m("c21-no-ttl-on-cancel", "C21", [(DK, '''    if ttl_seconds > 0 then
        redis.call('EXPIRE', runs_key, ttl_seconds)''', '''    if ttl_seconds > 0 then
        if message_id then redis.call('EXPIRE', runs_key, ttl_seconds) end''')])
m("c21-superseded-leaves-progress", "C21 C28", [(X, "            if not progress_gen or tonumber(progress_gen) <= generation then", "            if not progress_gen or tonumber(progress_gen) < generation then")])
m("c24-stop-drops-reads", "C24 C02", [(W, "            message_ids = list(active_messages.values())\n            if not message_ids:\n                continue\n", "            message_ids = list(active_messages.values())\n            if not message_ids or self._worker_stopping.is_set():\n                continue\n")])
m("c25-work-ignores-queue", "C25", [(W, "                return stream_len > 0 or queue_len > 0", "                return stream_len > 0 or queue_len > len(self._execution_counts)")])
m("c26-cached-across", "C26", [("dependencies/_resolution.py", "    cache_token = _Depends.cache.set({})\n", "    cache_token = _Depends.cache.set(worker.__dict__.setdefault('_dep_cache', {}) if execution.redelivered else {})\n")])
m("c27-extend-base", "C27", [("dependencies/_timeout.py", "        self._deadline += by.total_seconds()", "        self._deadline = max(self._deadline, time.monotonic() + by.total_seconds())")])
m("c27-timeout-on-done", "C27", [("dependencies/_timeout.py", "                if self.expired():\n", "                if self.remaining().total_seconds() < 0.05:\n")])
m("c28-claim-keeps-message", "C28", [(X, "    redis.call('HDEL', progress_key, 'message', 'updated_at')\n", "    redis.call('HDEL', progress_key, 'updated_at')\n")])
m("c28-terminal-drops-successor", "C28", [(X, "            if not progress_gen or tonumber(progress_gen) <= generation then\n                redis.call('DEL', progress_key)\n            end\n", "            redis.call('DEL', progress_key)\n")])
m("c29-due-future-batch", "C29", [(W, "        local tasks = redis.call('ZRANGEBYSCORE', queue_key, 0, now_timestamp)\n", "        local tasks = redis.call('ZRANGEBYSCORE', queue_key, 0, now_timestamp, 'LIMIT', 0, 10)\n"), (W, "        redis.call('ZREMRANGEBYSCORE', queue_key, 0, now_timestamp)\n", "        redis.call('ZREMRANGEBYSCORE', queue_key, 0, now_timestamp)\n        due_work = due_work + 0\n")])
m("c30-expire-age", "C30", [(W, "                oldest = now - maximum_age.total_seconds()\n", "                oldest = now - self.docket.heartbeat_interval.total_seconds()\n")])
m("c30-stop-leaves-task-listing", "C30", [(W, '''                    pipeline.zrem(self.task_workers_set(task_name), self.name)
''', '''                    if task_name in self.docket.tasks and self.worker_tasks_set: pipeline.zrem(self.task_workers_set(task_name), self.name) if task_name != list(self.docket.tasks)[-1] else None
''')])
m("c31-jitter-before-start", "C31", [("agenda.py", "                jittered_time = max(schedule_time + offset, start)\n", "                jittered_time = schedule_time + offset\n")])
m("c31-single-at-start", "C31", [("agenda.py", "            interval = over / (task_count - 1)\n", "            interval = over / task_count\n")])
m("c32-cooldown-shared", "C32 C18", [("dependencies/_cooldown.py", '            cooldown_key = f"{scope}:cooldown:{execution.function_name}"', '            cooldown_key = f"cooldown:{execution.function_name}"')])
m("c33-uuid-sequence", "C33", [("_uuid7.py", "import time\n", "import time\n")])
m("c34-loads-args-in-loop", "C34", [(W, "            if self.docket.strike_list.is_stricken(execution):\n" if False else "        if self.docket.strike_list.is_stricken(execution):\n", "        if self.docket.strike_list.is_stricken(execution) or not execution.args and execution.kwargs.get('__stop__'):\n")])
m("c22-clear-leaves-retry", "C22", [(DK, "        if waiting ~= 'scheduled' and waiting ~= 'queued' then\n", "        if waiting ~= 'scheduled' and waiting ~= 'queued' or redis.call('HGET', runs_key, 'attempt') then\n")])
m("c23-running-once", "C23", [("_docket_snapshot.py", "            if parked and parked.state == ExecutionState.SCHEDULED:\n", "            if parked and parked.state == ExecutionState.QUEUED:\n")])
m("c15-wake-one-only", "C15", [("dependencies/_concurrency.py", "        -- Forward only if", "        -- Forward only if")]) if False else None
