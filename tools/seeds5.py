seed("c37-annotations-by-parameter-names", "C37",
 [("annotations.py", "        key = (cls, signature)\n", "        key = (cls, tuple(signature.parameters))\n"),
  ("annotations.py", "    _cache: dict[tuple[type[Self], inspect.Signature], Mapping[str, Self]] = {}\n", "    _cache: dict[tuple[type[Self], tuple[str, ...]], Mapping[str, Self]] = {}\n")],
 '''
from typing import Annotated
async def main():
    async def shown(name: Annotated[str, Logged()]): ...
    async def hidden(name: str): ...
    async with opened() as d:
        a = await d.add(shown)("Ann")
        b = await d.add(hidden)("secret")
        check("Ann" in a.call_repr(), f"{a.call_repr()}: the argument that is to be logged is not shown")
        check("secret" not in b.call_repr(), f"{b.call_repr()}: the argument that is not to be logged is shown")
''', "two tasks whose parameters have the same names, only one of which marks one as Logged", "the second one's arguments are logged as the first one's are: an argument not marked shows up in the logs")
seed("c38-missing-keyword-counts-as-none", "C38",
 [("testing.py", "            if k not in execution.kwargs or execution.kwargs[k] != v:\n", "            if execution.kwargs.get(k) != v:\n")],
 '''
from docket import testing
async def main():
    async def job(**kw): ...
    async with opened() as d:
        d.register(job)
        await d.add(job, when=now() + S(60))(a=1)
        await testing.assert_task_scheduled(d, job, kwargs={"a": 1})
        await testing.assert_task_not_scheduled(d, job, kwargs={"b": 1})
        try: await testing.assert_task_scheduled(d, job, kwargs={"b": None})
        except AssertionError: pass
        else: check(False, "no task was scheduled with b=None, but the assertion passes")
''', "a keyword argument expected to be None of a task that was not given it", "the assertion passes although no such task is scheduled (and the opposite one fails)")
seed("c22-first-hundred", "C22",
 [("docket.py", '                    pipeline.zrange(self.queue_key, 0, -1)\n', '                    pipeline.zrange(self.queue_key, 0, 99)\n')],
 '''
async def main():
    async def job(): ...
    async with opened() as d:
        d.register(job)
        for n in range(120): await d.add(job, when=now() + S(60 + n), key=f"k{n}")()
        n = await d.clear()
        left = (await d.snapshot()).total_tasks
        check((n, left) == (120, 0), f"clear() said {n} of 120, {left} are left")
''', "more than a hundred tasks scheduled for later", "clear() leaves the ones beyond the hundredth scheduled")
seed("c11-after-adds-up", "C11",
 [("dependencies/_perpetual.py", "        self._next_when = datetime.now(timezone.utc) + delay\n", "        self._next_when = (self._next_when or datetime.now(timezone.utc)) + delay\n")],
 '''
async def main():
    at = []
    async def job(perpetual: Perpetual = Perpetual()):
        at.append(asyncio.get_running_loop().time())
        if len(at) == 2: perpetual.cancel()
        perpetual.after(S(3))
        perpetual.after(S(0.1))
    async with opened() as d:
        d.register(job)
        async with worker(d) as w:
            await d.add(job)()
            await w.run_until_finished()
    check(len(at) == 2 and at[1] - at[0] < 2, f"the successor was asked for after 0.1 s and came after {at[1] - at[0]} s")
''', "a run that changes its mind about when its successor shall run", "the delays add up, the successor runs late")
seed("c03-renewal-stops-at-the-first-error", "C03",
 [("worker.py", '                logger.warning("Failed to renew leases", exc_info=True)\n', '                logger.warning("Failed to renew leases", exc_info=True)\n                return\n')],
 '''
import burner_redis, redis
async def main():
    real, calls, ran = burner_redis.BurnerRedis.xclaim, [], []
    async def xclaim(self, *a, **k):
        calls.append(1)
        if len(calls) == 1: raise redis.exceptions.ConnectionError("lost for a moment")
        return await real(self, *a, **k)
    burner_redis.BurnerRedis.xclaim = xclaim
    async def job():
        ran.append(1)
        await asyncio.sleep(3)
    async with opened() as d:
        d.register(job)
        async with worker(d, redelivery_timeout=S(1)) as a, worker(d, "v", redelivery_timeout=S(1)) as b:
            await d.add(job)()
            await asyncio.gather(a.run_until_finished(), b.run_until_finished())
    check(len(ran) == 1, f"the task ran {len(ran)} times although its worker was alive and connected")
''', "the connection is lost at the moment a lease is renewed, with the task running on for long", "its leases are never renewed again, the task is redelivered and runs twice")
seed("c36-added-means-scheduled", "C36",
 [("docket.py", '''            TASKS_ADDED.add(1, {**self.labels(), **execution.general_labels()})
            if execution.disposition is Disposition.SCHEDULED:
                TASKS_SCHEDULED.add(1, {**self.labels(), **execution.general_labels()})
''', '''            TASKS_ADDED.add(1, {**self.labels(), **execution.general_labels()})
            TASKS_SCHEDULED.add(1, {**self.labels(), **execution.general_labels()})
''')],
 '''
from unittest.mock import patch
async def main():
    seen = []
    async def job(): ...
    async with opened() as d:
        d.register(job)
        import docket.docket as module
        real = module.TASKS_SCHEDULED
        class Counter:
            def add(self, n, *a, **k): seen.append(n); return real.add(n, *a, **k)
        module.TASKS_SCHEDULED = Counter()
        for _ in range(3): await d.add(job, when=now() + S(60), key="k")()
    check(sum(seen) == 1, f"{sum(seen)} tasks were counted as scheduled, but only one was")
''', "add() of a key that is scheduled already", "the counter of scheduled tasks grows although nothing was scheduled")
