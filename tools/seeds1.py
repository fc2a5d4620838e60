seed("c02-renewal-ends-when-idle", "C02",
 [("worker.py", "            if not message_ids:\n                continue\n\n            try:\n                with self._maybe", "            if not message_ids:\n                return\n\n            try:\n                with self._maybe")],
 '''
async def main():
    runs = []
    async def long(n: int):
        runs.append(n)
        await asyncio.sleep(1.5)
    async with opened() as d:
        d.register(long)
        async with worker(d, redelivery_timeout=S(0.4)) as w:
            t = asyncio.create_task(w.run_forever())
            await asyncio.sleep(0.5)
            await d.add(long)(1)
            await asyncio.sleep(2.2)
            t.cancel()
            await asyncio.gather(t, return_exceptions=True)
    check(runs == [1], f"the task ran {len(runs)} times")
''', "a worker that has been idle for at least a quarter of the redelivery timeout, then a task longer than the redelivery timeout",
 "the lease of a long running task is not renewed, so the task is redelivered and runs twice without any failure")

seed("c05-replace-one-place-only", "C05",
 [("execution.py", """            redis.call('XDEL', stream_key, existing_message_id)
        end

        redis.call('ZREM', queue_key, task_key)
        redis.call('DEL', parked_key)
""", """            redis.call('XDEL', stream_key, existing_message_id)
        else
            redis.call('ZREM', queue_key, task_key)
            redis.call('DEL', parked_key)
        end
""")],
 '''
async def main():
    runs = []
    async def job(n: int): runs.append(n)
    async with opened() as d:
        d.register(job)
        await d.add(job, key="k")(1)
        await d.replace(job, key="k", when=now() + S(0.6))(2)
        await d.replace(job, key="k", when=now())(3)
        async with worker(d) as w:
            t = asyncio.create_task(w.run_forever())
            await asyncio.sleep(1.2)
            t.cancel()
            await asyncio.gather(t, return_exceptions=True)
        check(runs == [3], f"ran {runs}")
        e = await d.get_execution("k")
        check(e.state.value == "completed", f"the record of the completed replacement reads {e.state.value}")
''', "a ready task replaced by a future one and then by an immediate one before a worker takes it",
 "the queue entry of the replaced schedule survives, is moved to the stream later and overwrites the record of the finished replacement")

seed("c06-cancel-one-place-only", "C06",
 [("docket.py", """        redis.call('XDEL', stream_key, message_id)
    end

    -- Clean up legacy keys and parked data
    redis.call('DEL', known_key, parked_key, stream_id_key)
    redis.call('ZREM', queue_key, task_key)
""", """        redis.call('XDEL', stream_key, message_id)
    else
        redis.call('DEL', parked_key)
        redis.call('ZREM', queue_key, task_key)
    end

    -- Clean up legacy keys
    redis.call('DEL', known_key, stream_id_key)
""")],
 '''
async def main():
    runs = []
    async def job(n: int): runs.append(n)
    async with opened() as d:
        d.register(job)
        await d.add(job, key="k")(1)
        await d.replace(job, key="k", when=now() + S(0.4))(2)
        await d.cancel("k")
        async with worker(d) as w:
            t = asyncio.create_task(w.run_forever())
            await asyncio.sleep(1.0)
            t.cancel()
            await asyncio.gather(t, return_exceptions=True)
        check(runs == [], f"the cancelled task ran: {runs}")
''', "a ready task is replaced by a future one, which is then cancelled", "cancel() leaves the future queue entry of the replacement behind, and it is started later")

seed("c04-delayed-retry-frees-key", "C04",
 [("execution.py", """            redis.call('ZADD', queue_key, when_timestamp, task_key)
            redis.call('HSET', runs_key,
                'state', 'scheduled',
                'when', when_timestamp,
                'known', when_timestamp,
                'function', function_name,
                'args', args_data,
                'kwargs', kwargs_data
            )
            redis.call('HDEL', runs_key, 'stream_id')
""", """            redis.call('ZADD', queue_key, when_timestamp, task_key)
            redis.call('HSET', runs_key,
                'state', 'scheduled',
                'when', when_timestamp,
                'function', function_name,
                'args', args_data,
                'kwargs', kwargs_data
            )
            redis.call('HDEL', runs_key, 'stream_id')
""")],
 '''
async def main():
    runs = []
    async def job(n: int, retry: Retry = Retry(attempts=2, delay=S(0.6))):
        runs.append((n, retry.attempt))
        if retry.attempt < 2: raise ValueError()
    async with opened() as d:
        d.register(job)
        await d.add(job, key="k")(1)
        async with worker(d) as w:
            t = asyncio.create_task(w.run_forever())
            await asyncio.sleep(0.3)
            e = await d.add(job, key="k")(2)
            check(e.disposition.name == "ALREADY_SCHEDULED", f"add() while a retry was pending: {e.disposition}")
            await asyncio.sleep(1.0)
            t.cancel()
            await asyncio.gather(t, return_exceptions=True)
''', "add() of the same key while a delayed retry is pending", "the key is not deduplicated while the task awaits its retry; the retry is overwritten")
