seed("c10-requested-delay-sticks", "C10",
 [("dependencies/_retry.py", '''        execution = current_execution.get()
        retry = Retry(attempts=self.attempts, delay=self.delay)
        retry.attempt = execution.attempt
        return retry
''', '''        self.attempt = current_execution.get().attempt
        return self
''')],
 '''
async def main():
    t = {}
    async def job(n: int, retry: Retry = Retry(attempts=2, delay=S(0.1))):
        t.setdefault(n, []).append(asyncio.get_running_loop().time())
        if n == 1 and retry.attempt == 1: retry.after(S(2))
        if retry.attempt == 1: raise ValueError()
    async with opened() as d:
        d.register(job)
        await d.add(job)(1)
        async with worker(d) as w:
            await w.run_until_finished()
            await d.add(job)(2)
            await w.run_until_finished()
        check(t[1][1] - t[1][0] >= 2, f"{t}")
        check(t[2][1] - t[2][0] < 1, f"the second task's retry waited {t[2][1] - t[2][0]} s instead of 0.1 s")
''', "a run asks for a retry after a delay of its own, and later another task of the function fails", "the delay one run asked for is used for the retries of all later tasks of the function")
seed("c27-deadline-of-the-latest", "C27",
 [("dependencies/_timeout.py", '''        return Timeout(base=self.base)
''', '''        return self
''')],
 '''
async def main():
    ran = {}
    async def job(n: int, seconds: float, t: Timeout = Timeout(S(0.6))):
        a = asyncio.get_running_loop().time()
        try: await asyncio.sleep(seconds)
        finally: ran[n] = asyncio.get_running_loop().time() - a
    async with opened() as d:
        d.register(job)
        async with worker(d) as w:
            await d.add(job)(1, 3)
            for n in range(2, 7): await d.add(job, when=now() + S(0.3 * (n - 1)))(n, 0.1)
            await w.run_until_finished()
        check(ran[1] < 1.2, f"a task limited to 0.6 s ran for {ran[1]} s")
''', "tasks of one function with a Timeout overlap, a later one beginning before an earlier one's deadline", "the deadline of a running task is moved by other tasks of the same function that start meanwhile")
seed("c33-short-sequence", "C33",
 [("_uuid7.py", "        if _last[3] < 0x3FFF:\n            _last[3] += 1\n", "        _last[3] = (_last[3] + 1) & 0xFF\n")],
 '''
import time
from docket._uuid7 import uuid7
async def main():
    t = time.time_ns()
    old = time.time_ns
    time.time_ns = lambda: t
    try: keys = [str(uuid7()) for _ in range(2000)]
    finally: time.time_ns = old
    check(len(set(keys)) == 2000, "keys repeat")
    check(keys == sorted(keys), "keys generated one after another in the same tick are not in order")
''', "more than 256 keys within one tick of the clock", "keys of a burst are out of order")
seed("c31-whole-seconds", "C31",
 [("agenda.py", "            interval = over / (task_count - 1)\n", "            interval = timedelta(seconds=over // timedelta(seconds=task_count - 1))\n")],
 '''
async def main():
    async def job(n: int): ...
    async with opened() as d:
        d.register(job)
        a = Agenda()
        for n in range(5): a.add(job)(n)
        start = now() + S(60)
        x = await a.scatter(d, over=S(10), start=start)
        check([e.when for e in x] == [start + S(2.5 * n) for n in range(5)], f"entries at {[(e.when - start).total_seconds() for e in x]} of 10 s")
''', "a window that does not divide into whole seconds", "the entries are spaced by whole seconds and end early (or all at once)")
seed("c08-function-strikes-hide-general-ones", "C08",
 [("strikelist.py", "            for strike_source in [task_strikes, self.parameter_strikes]:\n                if parameter not in strike_source:\n                    continue\n",
   "            for strike_source in [task_strikes or self.parameter_strikes]:\n                if parameter not in strike_source:\n                    continue\n")],
 '''
async def main():
    ran = []
    async def job(a: int, b: int): ran.append((a, b))
    async with opened() as d:
        d.register(job)
        await d.strike(None, "a", "==", 1)
        await d.strike("job", "b", "==", 7)
        await d.add(job)(2, 2)
        await d.add(job)(1, 2)
        await d.add(job)(2, 7)
        async with worker(d) as w: await w.run_until_finished()
        check(ran == [(2, 2)], f"ran {ran}")
''', "a strike of a parameter for all functions, together with a strike of any parameter of one function", "the general strike does not apply to that function")
seed("c32-cooldown-across-dockets", "C32",
 [("dependencies/_cooldown.py", '            cooldown_key = f"{scope}:cooldown:{execution.function_name}"', '            cooldown_key = f"cooldown:{execution.function_name}"')],
 '''
async def main():
    ran = []
    async def job(n: int, c: Cooldown = Cooldown(S(30))): ran.append(n)
    async with opened("one") as d, opened("two") as e:
        for x in (d, e): x.register(job)
        await d.add(job)(1)
        await e.add(job)(2)
        async with worker(d) as w: await w.run_until_finished()
        async with worker(e) as w: await w.run_until_finished()
        check(ran == [1, 2], f"ran {ran}: the cooldown of docket one applied to docket two")
''', "two dockets on one Redis with a function of the same name and a cooldown of the whole task", "an execution on one docket begins the cooldown of the other")
seed("c25-retries-not-counted", "C25",
 [("worker.py", "        if execution.key in self._execution_counts:\n            self._execution_counts[execution.key] += 1\n",
   "        if execution.key in self._execution_counts and execution.attempt == 1:\n            self._execution_counts[execution.key] += 1\n")],
 '''
async def main():
    ran = []
    async def job(retry: Retry = Retry(attempts=6)):
        ran.append(1)
        raise ValueError()
    async with opened() as d:
        d.register(job)
        await d.add(job, key="k")()
        async with worker(d) as w: await w.run_at_most({"k": 2})
        check(len(ran) == 2, f"ran {len(ran)} times, at most 2 were allowed")
''', "run_at_most() with a key whose task is retried", "retries are not counted as executions")
seed("c19-only-the-first-due-is-announced", "C19",
 [("worker.py", "                redis.call('PUBLISH', channel, payload)\n\n                due_work", "                if due_work == 0 then\n                    redis.call('PUBLISH', channel, payload)\n                end\n\n                due_work")],
 '''
async def main():
    seen = {}
    async def job(): ...
    async with opened() as d:
        d.register(job)
        when = now() + S(1)
        x = [await d.add(job, key=f"k{n}", when=when)() for n in range(3)]
        async def follow(e):
            async for event in e.subscribe():
                if event["type"] == "state":
                    seen.setdefault(e.key, []).append(getattr(event["state"], "value", event["state"]))
                    if seen[e.key][-1] == "completed": return
        t = [asyncio.create_task(follow(e)) for e in x]
        await asyncio.sleep(0.3)
        async with worker(d, scheduling_resolution=S(0.5)) as w: await w.run_until_finished()
        await asyncio.wait(t, timeout=2)
        for e in x: check("queued" in seen[e.key], f"{e.key}: {seen[e.key]}")
''', "several scheduled tasks fall due between two looks of the scheduler, with a subscriber to each", "only the first of them is announced as queued")
seed("c26-nested-class-dependency-not-left", "C26",
 [("dependencies/_functional.py", '''            arguments[parameter] = await stack.enter_async_context(dependency)
''', '''            arguments[parameter] = await dependency.__aenter__()
''')],
 '''
async def main():
    from docket.dependencies import Dependency
    seen = []
    class Resource(Dependency):
        async def __aenter__(self):
            seen.append("enter")
            return self
        async def __aexit__(self, *a): seen.append("exit")
    async def service(r=Resource()): return 1
    async def job(s=Depends(service)): seen.append("run")
    async with opened() as d:
        d.register(job)
        await d.add(job)()
        async with worker(d) as w: await w.run_until_finished()
        check(seen == ["enter", "run", "exit"], f"{seen}")
''', "a function dependency that itself depends on a Dependency with a clean-up of its own", "the nested dependency is entered but never left")
seed("c28-progress-goes-on", "C28",
 [("execution.py", '''    redis.call('HSET', progress_key,
        'current', '0',
        'total', '100',
        'generation', generation
    )
''', '''    if redis.call('HEXISTS', progress_key, 'current') == 0 then
        redis.call('HSET', progress_key, 'current', '0')
    end
    redis.call('HSET', progress_key,
        'total', '100',
        'generation', generation
    )
''')],
 '''
async def main():
    from docket.execution import ExecutionProgress
    seen = []
    async def job(p: ExecutionProgress = Progress(), retry: Retry = Retry(attempts=2)):
        await p.increment(5)
        seen.append(p.current)
        if retry.attempt == 1: raise ValueError()
    async with opened() as d:
        d.register(job)
        await d.add(job, key="k")()
        async with worker(d) as w: await w.run_until_finished()
        check(seen == [5, 5], f"{seen}: the retried run's progress goes on from the failed run's")
''', "a task that reported progress is retried", "the progress of the failed attempt is carried over")
seed("c29-one-batch-of-due-tasks", "C29",
 [("worker.py", "        local tasks = redis.call('ZRANGEBYSCORE', queue_key, 0, now_timestamp)\n", "        local tasks = redis.call('ZRANGEBYSCORE', queue_key, 0, now_timestamp, 'LIMIT', 0, 10)\n"),
  ("worker.py", "        redis.call('ZREMRANGEBYSCORE', queue_key, 0, now_timestamp)\n", "        if #tasks > 0 then\n            redis.call('ZREM', queue_key, unpack(tasks))\n        end\n")],
 '''
async def main():
    ran = []
    async def job(n: int): ran.append(n)
    async with opened() as d:
        d.register(job)
        for n in range(60): await d.add(job, when=now() + S(0.5))(n)
        await asyncio.sleep(0.6)
        async with worker(d, concurrency=60, scheduling_resolution=S(0.5)) as w:
            t = asyncio.create_task(w.run_forever())
            await asyncio.sleep(1.8)
            t.cancel()
            await asyncio.gather(t, return_exceptions=True)
        check(len(ran) == 60, f"only {len(ran)} of 60 due tasks had started after more than three looks of the scheduler")
''', "many more than ten tasks fall due at once", "only ten due tasks are moved at each look of the scheduler, the others start later and later")
seed("c20-deadline-forgotten", "C20",
 [("execution.py", '''                timeout_seconds = (
                    deadline - datetime.now(timezone.utc)
                ).total_seconds()
''', '''                timeout_seconds = (deadline - datetime.now(timezone.utc)).seconds
''')],
 '''
async def main():
    async def job(): ...
    async with opened() as d:
        d.register(job)
        e = await d.add(job, when=now() + S(60))()
        for kw in (dict(timeout=S(1.5)), dict(deadline=now() - S(1))):
            a = asyncio.get_running_loop().time()
            try: await asyncio.wait_for(e.get_result(**kw), 5)
            except asyncio.TimeoutError: pass
            b = asyncio.get_running_loop().time() - a
            check(b < 4, f"get_result({kw}) had not given up after {b} s")
            check("deadline" in kw or b > 1.3, f"get_result({kw}) gave up after {b} s")
''', "a deadline that has passed already (negative), or one with a fraction of a second", "waiting goes on for almost a day, or gives up early by the fraction")
