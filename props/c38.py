"""C38: the assertions of docket.testing tell what is scheduled."""
import itertools
from mc.world import *
from mc.explore import Bounds
from docket import testing

RULE = ("every multiset of up to two (thorough: three) calls made, in every way (ready, scheduled, replaced, cancelled, running, ended, struck, retried, perpetual, many), each asked about with every "
        "combination of function, arguments, keyword arguments and key; and four kinds of tasks going their way, the assertions being made all along")

# (function, args, kwargs, how)
CALLS = [(f, a, k, how) for f, (a, k), how in
         [(f, c, how) for f in ("f", "g") for c in (((1,), {}), ((1,), {"y": 2}), ((), {"x": 1, "y": None})) for how in ("ready", "later")]
         + [("f", ((1,), {}), how) for how in ("replaced", "cancelled", "cancelled-later", "running", "ended", "struck", "moved", "remade")]]
QUERIES = [(fn, a, k, key) for fn in ("f", "g", "h") for a in (None, (), (1,), (2,), (1, 2)) for k in (None, {}, {"y": 2}, {"x": 1}, {"y": None}, {"x": 1, "y": None}, {"x": 1, "y": 2}, {"z": 1}) for key in (None, "k0", "k1", "nokey")]
FEWER = [(fn, a, k, key) for fn, a, k, key in QUERIES if fn != "h" and a in (None, (), (1,)) and k in (None, {}, {"x": 1, "y": 2}, {"x": 1, "y": None}) and key != "nokey"]


class Sets(World):
    poll = 0.1
    chunk = ()
    named = False

    def tasks(self, env):
        async def f(x=0, y=0):
            async with body(env, "f"): await asyncio.sleep(env.data.secs)
        async def g(x=0, y=0):
            async with body(env, "g"): await asyncio.sleep(env.data.secs)
        async def h(x=0, y=0): pass
        return {"f": f, "g": g, "h": h}

    async def main(self, env):
        self.bad, self.n = [], 0
        env.data.secs = 0.01
        for j, calls in enumerate(self.chunk):
            self.docket_name = f"d{j}"
            async with self.client(env) as d:
                env.data.secs = 3.0 if any(c[3] == "running" for c in calls) else 0.01
                there = []
                hows = [c[3] for c in calls]
                busy = set(hows) & {"running", "ended"}
                order = sorted(range(len(calls)), key=lambda i: calls[i][3] not in ("running", "ended"))
                started = False
                for i in order:
                    fn, a, k, how = calls[i]
                    key = f"k{i}"
                    f = d.fns[fn]
                    later = utc() + S(1000 + i)
                    if busy and how not in ("running", "ended") and not started:
                        started = True
                        await self.serve(env)
                    if how in ("running", "ended"): await d.add(f, key=key)(*a, **k)
                    elif how == "struck":
                        await d.strike(fn, "x", "==", 77)
                        await d.add(f, key=key)(77)
                    else:
                        await d.add(f, key=key, when=later if how in ("later", "cancelled-later", "replaced", "moved") else None)(*a, **k)
                        if how == "replaced":
                            await d.replace(f, key=key, when=later + S(5))(9, y=9)
                            a, k = (9,), {"y": 9}
                        if how == "moved": await d.replace(f, key=key, when=utc())(*a, **k)
                        if how.startswith("cancelled"): await d.cancel(key)
                        if how == "remade":
                            await d.cancel(key)
                            await d.add(f, key=key, when=later)(*a, **k)
                        if not how.startswith("cancelled"): there.append((fn, a, k, key))
                if busy and not started: await self.serve(env)
                await self.ask(env, d, there, f"the calls {calls}", QUERIES if len(calls) < 2 else FEWER)
                await d.clear()
                if self.bad: return

    async def serve(self, env):
        """A worker takes what there is, and no more."""
        t = self.start_worker(env, f"w-{self.docket_name}")
        await asyncio.sleep(0.5)
        if env.data.secs < 1: t.cancel(); await asyncio.gather(t, return_exceptions=True)
        else: env.crash(f"w-{self.docket_name}")

    async def says(self, assertion, *a, **kw):
        try: await assertion(*a, **kw)
        except AssertionError: return False
        return True

    async def ask(self, env, d, there, ctx, queries=QUERIES):
        for fn, a, k, key in queries:
            of = fn if self.named else d.fns[fn]
            kw = {n: v for n, v in (("args", a), ("kwargs", k), ("key", key)) if v is not None}
            want = any(c[0] == fn and (a is None or c[1] == a) and (k is None or all(n in c[2] and c[2][n] == v for n, v in k.items())) and key in (None, c[3]) for c in there)
            for assertion, exp in ((testing.assert_task_scheduled, want), (testing.assert_task_not_scheduled, not want)):
                self.n += 1
                if await self.says(assertion, d, of, **kw) != exp:
                    self.bad.append((assertion.__name__, f"{ctx}: {assertion.__name__}({fn!r}, {kw}) {'fails' if exp else 'passes'}; waiting are {there}"))
                    return
        for fn in (None, "f", "g", "h"):
            n = len([c for c in there if fn in (None, c[0])])
            for count in range(len(there) + 2):
                self.n += 1
                got = await self.says(testing.assert_task_count, d, *([] if fn is None else [fn if self.named else d.fns[fn]]), count=count)
                if got != (count == n): self.bad.append(("assert_task_count", f"{ctx}: assert_task_count({fn!r}, count={count}) {'passes' if got else 'fails'}; waiting are {there}"))
        self.n += 1
        if await self.says(testing.assert_no_tasks, d) != (not there): self.bad.append(("assert_no_tasks", f"{ctx}: assert_no_tasks {'fails' if not there else 'passes'}; waiting are {there}"))

    def check(self, env): return self.bad
    def counts(self, env): return self.n, self.n


class Many(Sets):
    """Counts are exact for many tasks, too."""
    async def main(self, env):
        self.bad, self.n = [], 0
        async with self.client(env) as d:
            for ready, later in ((0, 120), (120, 0), (60, 55)):
                there = []
                for i in range(ready + later):
                    fn = "fg"[i % 3 == 0]
                    await d.add(d.fns[fn], key=f"k{i}", when=utc() + S(900 + i) if i >= ready else None)(i)
                    there.append((fn, (i,), {}, f"k{i}"))
                for fn in (None, "f", "g"):
                    n = len([c for c in there if fn in (None, c[0])])
                    for count in (n - 1, n, n + 1, 100):
                        self.n += 1
                        got = await self.says(testing.assert_task_count, d, *([] if fn is None else [d.fns[fn]]), count=count)
                        if got != (count == n): self.bad.append(("assert_task_count", f"of {ready} ready and {later} scheduled calls, assert_task_count({fn!r}, count={count}) {'passes' if got else 'fails'}"))
                for i in sorted({0, 99, 100, ready - 1, ready, ready + later - 1} & set(range(ready + later))):
                    self.n += 1
                    if not await self.says(testing.assert_task_scheduled, d, "fg"[i % 3 == 0], args=(i,), key=f"k{i}"): self.bad.append(("assert_task_scheduled", f"of {ready} ready and {later} scheduled calls, k{i} is not found"))
                await d.clear()
                self.n += 1
                if not await self.says(testing.assert_no_tasks, d): self.bad.append(("assert_no_tasks", "after clear() there are tasks"))


class Along(World):
    """While tasks go their way, what was added and has not been started is found at every operation, and what has ended is not."""
    poll = 0.25
    hold_limit = 0.8
    conc = 1

    def tasks(self, env):
        async def f(n):
            async with body(env, f"k{n}"): await asyncio.sleep(0.3)
        return {"f": f}

    async def main(self, env):
        self.bad = []
        async with self.client(env) as d:
            plan = ((0, 0), (1, 0), (2, 0.5), (3, 0.6))
            for n, delay in plan: await d.add(d.fns["f"], key=f"k{n}", when=utc() + S(delay) if delay else None)(n)
            self.start_worker(env, "w1", concurrency=self.conc)
            env.explore = True
            for step in range(26):
                await asyncio.sleep(0.0801)
                before = {e[3] for e in starts(env)}, {e[3] for e in finishes(env)}
                found = set()
                for n, _ in plan:
                    try: await testing.assert_task_scheduled(d, "f", args=(n,), key=f"k{n}")
                    except AssertionError: continue
                    found.add(f"k{n}")
                after = {e[3] for e in starts(env)}
                for n, _ in plan:
                    k = f"k{n}"
                    if k in found and k in before[1]: self.bad.append(("ended", f"{k} had ended, but is scheduled"))
                    if k not in found and k not in after and not env.nheld and self.conc > 1 and step < 3 and n >= 2: self.bad.append(("lost", f"{k} waits to be run, but isn't scheduled"))
            env.explore = False
            await asyncio.sleep(2.0)
            try: await testing.assert_no_tasks(d)
            except AssertionError as e: self.bad.append(("left", str(e)))

    def check(self, env): return self.bad[:2]


def work(tier):
    deep = tier == "thorough"
    out = []
    sets = [c for n in (0, 1, 2) for c in itertools.combinations_with_replacement(CALLS, n)]
    size = 12
    for named in (False, True):
        mine = sets if not named else sets[:1 + len(CALLS)] if not deep else sets
        out += [(Sets(name=f"sets-{'named-' * named}{i // size}", chunk=mine[i:i + size], named=named, max_ops=10 ** 7, max_time=1e7), Bounds(0)) for i in range(0, len(mine), size)]
    if deep:
        three = list(itertools.combinations_with_replacement(CALLS, 3))
        out += [(Sets(name=f"three-{i // 20}", chunk=three[i:i + 20], max_ops=10 ** 7, max_time=1e7), Bounds(0)) for i in range(0, len(three), 20)]
    out.append((Many(name="many", max_ops=10 ** 6, max_time=1e6), Bounds(0)))
    for c in (1, 2): out.append((Along(name=f"along-{c}", conc=c), Bounds(1 if not deep else 2, m=1, hold=1)))
    return out
