seed("c02-renews-first-ten-leases", "C02",
 [("worker.py", "            message_ids = list(active_messages.values())\n", "            message_ids = list(active_messages.values())[:10]\n")],
 '''
async def main():
    runs = []
    async def job(n: int):
        runs.append(n)
        await asyncio.sleep(2.5)
    async with opened() as d, opened() as d2:
        for x in (d, d2): x.register(job)
        for n in range(12): await d.add(job)(n)
        async with worker(d, "a", concurrency=12, redelivery_timeout=S(0.6)) as a, worker(d2, "b", concurrency=12, redelivery_timeout=S(0.6)) as b:
            t = asyncio.create_task(a.run_forever())
            await asyncio.sleep(0.3)
            u = asyncio.create_task(b.run_forever())
            await asyncio.sleep(3)
            for x in (t, u): x.cancel()
            await asyncio.gather(t, u, return_exceptions=True)
        check(sorted(runs) == list(range(12)), f"runs {sorted(runs)}")
''', "more than ten tasks at once on one worker, running longer than the redelivery timeout, and a second worker", "leases beyond the first ten are not renewed, so those tasks are redelivered and run twice")
seed("c01-redelivery-only-when-idle", "C01",
 [("worker.py", "                            for source in [get_redeliveries, get_new_deliveries]:\n",
   "                            sources = [get_redeliveries, get_new_deliveries]\n                            if active_tasks:\n                                # nothing can have been abandoned while we keep up\n                                sources = [get_new_deliveries]\n                            for source in sources:\n")],
 '''
async def main():
    done = []
    async def job(n: int):
        await asyncio.sleep(0.4)
        done.append(n)
    async with opened() as d:
        d.register(job)
        await d.add(job, key="orphan")(0)
        # a worker takes the task and dies without a trace
        async with d.redis() as r:
            await d._ensure_stream_and_group()
            got = await r.xreadgroup(groupname=d.worker_group_name, consumername="dead", streams={d.stream_key: ">"}, count=1)
            assert got
        async with worker(d, "b", concurrency=5, redelivery_timeout=S(0.5)) as b:
            t = asyncio.create_task(b.run_forever())
            for n in range(1, 30):
                await d.add(job)(n)
                await asyncio.sleep(0.15)
            late = 0 in done
            t.cancel()
            await asyncio.gather(t, return_exceptions=True)
        check(late, "the dead worker's task was not taken over within 4 s by a worker that always has something to do")
''', "a worker dies with a task and every surviving worker is continually busy", "abandoned tasks are only taken over by a worker that has nothing to do")
seed("c11-period-from-completion-when-overrun", "C11",
 [("dependencies/_perpetual.py", "            when = max(now, now + self.every - outcome.duration)\n",
   "            when = now + self.every - outcome.duration\n            if when < now:\n                when = now + self.every\n")],
 '''
async def main():
    t = []
    async def job(p: Perpetual = Perpetual(every=S(0.5))):
        t.append(asyncio.get_running_loop().time())
        if len(t) == 1: await asyncio.sleep(0.8)
        if len(t) == 2: p.cancel()
    async with opened() as d:
        d.register(job)
        await d.add(job, key="k")()
        async with worker(d) as w:
            x = asyncio.create_task(w.run_forever())
            await asyncio.sleep(1.1)
            x.cancel()
            await asyncio.gather(x, return_exceptions=True)
        check(len(t) == 2, f"after a run of 0.8 s, longer than the period of 0.5 s, the next one did not begin at once: {t}")
''', "a perpetual run that takes longer than its period", "the successor of an overlong run waits for another whole period")
seed("c11-failed-run-loses-perpetuated-arguments", "C11",
 [("dependencies/_perpetual.py", "                    *self.args,\n                    **self.kwargs,\n", "                    *(self.args if not outcome.exception else execution.args),\n                    **(self.kwargs if not outcome.exception else execution.kwargs),\n")],
 '''
async def main():
    seen = []
    async def job(n: int, p: Perpetual = Perpetual(every=S(0.1))):
        seen.append(n)
        p.perpetuate(n + 1)
        if n == 3: p.cancel()
        elif n == 1: raise ValueError()
    async with opened() as d:
        d.register(job)
        await d.add(job, key="k")(0)
        async with worker(d) as w: await w.run_at_most({"k": 4})
        check(seen == [0, 1, 2, 3], f"arguments of the runs: {seen}")
''', "a perpetual run that sets the next arguments and then fails", "the successor of a failing run gets the old arguments")
seed("c16-log-expires-early", "C16",
 [("dependencies/_ratelimit.py", "        ttl_ms = window_ms * 2\n", "        ttl_ms = window_ms // 2\n")],
 '''
async def main():
    t = []
    async def job(r: RateLimit = RateLimit(2, per=S(2), drop=True)): t.append(1)
    async with opened() as d:
        d.register(job)
        async with worker(d) as w:
            x = asyncio.create_task(w.run_forever())
            await d.add(job)()
            await d.add(job)()
            await asyncio.sleep(1.4)
            await d.add(job)()
            await asyncio.sleep(0.2)
            x.cancel()
            await asyncio.gather(x, return_exceptions=True)
        check(len(t) == 2, f"{len(t)} runs within the window of 2 s, limit 2")
''', "quota used up, then a pause of more than half a window without admissions, then another call within the window", "the log of admissions expires before the window has passed")
seed("c18-cooldown-key-without-parameter", "C18",
 [("dependencies/_cooldown.py", '                f"{scope}:cooldown:{self._argument_name}:{self._argument_value}"\n', '                f"{scope}:cooldown:{execution.function_name}:{self._argument_value}"\n')],
 '''
from typing import Annotated
async def main():
    t = []
    async def move(a: Annotated[str, Cooldown(S(30))], b: Annotated[str, Cooldown(S(30))]): t.append((a, b))
    async with opened() as d:
        d.register(move)
        async with worker(d) as w:
            await d.add(move)(a="x", b="y")
            await w.run_until_finished()
            await d.add(move)(a="y", b="z")
            await w.run_until_finished()
        check(t == [("x", "y"), ("y", "z")], f"ran {t}: neither a='y' nor b='z' was in its window")
''', "two parameters of one task with cooldowns, a value of one being used for the other", "cooldowns of different parameters share a window when their values are equal")
seed("c17-short-memory", "C17",
 [("dependencies/_debounce.py", "        ttl_ms = settle_ms * 10\n", "        ttl_ms = settle_ms + 250\n")],
 '''
async def main():
    ran = []
    async def job(n: int, x: Debounce = Debounce(S(0.3))): ran.append(n)
    async with opened() as d:
        d.register(job)
        async with worker(d, scheduling_resolution=S(1)) as w:
            x = asyncio.create_task(w.run_forever())
            await asyncio.sleep(0.7)
            await d.add(job)(1)
            await asyncio.sleep(4)
            x.cancel()
            await asyncio.gather(x, return_exceptions=True)
        check(ran == [1], f"one submission, settle 0.3 s, ran within 4 s: {ran}")
''', "a scheduler that looks less often than the settle period plus a quarter of a second", "the debounce state is forgotten before the chosen submission comes back, which then starts over, for ever")
seed("c13-dow-and-dom", "C13",
 [("dependencies/_cron.py", "        super().__init__(automatic=automatic)\n        self.expression = VIXIE_KEYWORDS.get(expression, expression)\n        self.tz = tz\n",
   "        super().__init__(automatic=automatic)\n        self.expression = VIXIE_KEYWORDS.get(expression, expression)\n        if self.expression.startswith(\"@\"):\n            self.expression = VIXIE_KEYWORDS[self.expression.lower()]\n        self.tz = tz if tz.utcoffset(datetime.now(timezone.utc)) else timezone.utc\n")],
 '''
from zoneinfo import ZoneInfo
from unittest import mock
async def main():
    import docket.dependencies._cron as c
    class Fake(datetime):
        at = None
        @classmethod
        def now(cls, tz=None): return cls.at.astimezone(tz) if tz else cls.at
    tz = ZoneInfo("Europe/London")
    with mock.patch.object(c, "datetime", Fake):
        Fake.at = datetime(2026, 3, 28, 12, 0, tzinfo=timezone.utc)
        x = Cron("0 3 * * *", tz=tz)
        Fake.at = datetime(2026, 3, 29, 0, 30, tzinfo=timezone.utc)
        when = x.initial_when
    check(when == datetime(2026, 3, 29, 2, 0, tzinfo=timezone.utc), f"3:00 in London on 29 March 2026 is 2:00 UTC, scheduled for {when.astimezone(timezone.utc)}")
''', "a time zone without an offset when the task is declared, and with one later (London, Lisbon in winter)", "a time zone that happens to be at UTC when the task is declared is treated as UTC for good")
