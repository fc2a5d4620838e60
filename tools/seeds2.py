seed("c04-immediate-retry-frees-key", "C04",
 [("execution.py", """                'when', when_timestamp,
                'known', when_timestamp,
                'stream_id', new_message_id,
""", """                'when', when_timestamp,
                'stream_id', new_message_id,
""")],
 '''
async def main():
    runs = []
    async def job(n: int, retry: Retry = Retry(attempts=2)):
        runs.append((n, retry.attempt))
        await asyncio.sleep(0.2)
        if retry.attempt < 2: raise ValueError()
    async def busy(): await asyncio.sleep(1)
    async with opened() as d:
        d.register(job); d.register(busy)
        await d.add(job, key="k")(1)
        async with worker(d, concurrency=1) as w:
            t = asyncio.create_task(w.run_forever())
            await asyncio.sleep(0.1)
            await d.add(busy, key="b")()
            await asyncio.sleep(0.6)
            e = await d.add(job, key="k")(2)
            await asyncio.sleep(1.5)
            t.cancel()
            await asyncio.gather(t, return_exceptions=True)
        check(e.disposition.name == "ALREADY_SCHEDULED", f"add() while a retry was waiting for a worker: {e.disposition}, runs {runs}")
        check(runs == [(1, 1), (1, 2)], f"runs {runs}")
''', "an immediate retry waiting in the stream behind a busy worker when add() is called for its key", "add() replaces the waiting retry instead of reporting ALREADY_SCHEDULED")
seed("c07-cancel-last-started-only", "C07",
 [("worker.py", """            async with self.docket._pubsub() as pubsub:
                    await pubsub.psubscribe(cancel_pattern)
                    session.cancellation_ready.set()
                    while not session.stopping.is_set():
                        message = await pubsub.get_message(
                            ignore_subscribe_messages=True, timeout=0.1
                        )
""".replace("            async", "                async", 1), """                async with self.docket._pubsub() as pubsub:
                    await pubsub.psubscribe(cancel_pattern)
                    session.cancellation_ready.set()
                    while not session.stopping.is_set():
                        message = await pubsub.get_message(
                            ignore_subscribe_messages=True, timeout=0.1
                        )
                        if message is not None and not self._tasks_by_key:
                            # nothing is running here, drop whatever piled up
                            while message is not None:
                                message = await pubsub.get_message(
                                    ignore_subscribe_messages=True, timeout=0.1
                                )
""")],
 '''
async def main():
    ends = []
    async def long(n: int):
        try:
            await asyncio.sleep(1.2)
            ends.append((n, "ran out"))
        except asyncio.CancelledError:
            ends.append((n, "cancelled"))
            raise
    async with opened() as d:
        d.register(long)
        async with worker(d) as w:
            t = asyncio.create_task(w.run_forever())
            await asyncio.sleep(0.3)
            await d.cancel("other")
            await d.add(long, key="k")(1)
            await asyncio.sleep(0.06)
            await d.cancel("k")
            await asyncio.sleep(1.8)
            t.cancel()
            await asyncio.gather(t, return_exceptions=True)
        check(ends == [(1, "cancelled")], f"{ends}")
''', "a cancellation of some other key arrives while the worker runs nothing, and within 0.1 s a task starts and is cancelled", "the cancellation of the running task is swallowed, it runs on although its record reads cancelled")
