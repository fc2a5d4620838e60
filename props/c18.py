"""C18: cooldown admits one execution per window per key."""
from docket import Cooldown, ConcurrencyLimit, RateLimit, Retry
from props.adm import *

RULE = ("all arrival patterns of up to four submissions on a grid of gaps, per task and per parameter, one and two workers, immediate and due; "
        "combinations of controls; two candidates at once and a dying worker, with all placements of holds, reversals and crashes")


class Cool(Arrivals):
    def control(self): return Cooldown(S(self.window))

    def patterns(self): return gaps((0.25, 0.7, 1.15), 4) if self.same_key else gaps((0.0, 0.4, 0.85, 1.2), 4) + [p for p in gaps((0.25, 0.7, 1.15), 5) if len(p) == 5]

    def judge(self, p, r):
        """Whoever arrives outside a window is admitted; the window runs from the start."""
        last = None
        for t in sorted(set(p)):
            who = [i for i, x in enumerate(p) if x == t]
            k = [x for x in r if x[1] in who]
            if last is not None and t < last + self.window:
                if k: yield "in-window", f"submission {k[0][1]} ran inside the window begun at {last:.3f}"
            elif len(k) != 1: yield ("dropped" if not k else "two"), f"of the submissions {who}, outside any window, {len(k)} ran"
            elif not t - EPS <= k[0][0] <= t + LAT: yield "late", f"submission {k[0][1]} began at {k[0][0]:.3f}"
            if k: last = k[0][0]


class Two(World):
    """Two cooldowns on one task: the example of the documentation, for every order of a few calls."""
    poll = 0.05
    workers = 1
    kind = "cooldown"
    warm_runs = 1
    max_ops = 10 ** 6

    def cases(self): return list(itertools.product(self.values, repeat=4))

    values = ("1u", "1e", "2u", "2e")

    def tasks(self, env):
        async def sync(who: Annotated[str, Cooldown(S(10))], region: Annotated[str, Cooldown(S(10))], tag: str):
            async with body(env, tag): pass
        return {"sync": sync}

    async def main(self, env):
        async with self.client(env) as d:
            self.start_worker(env, "w0")
            await asyncio.sleep(0.2)
            for k in range(4):
                for n, c in enumerate(self.cases()):
                    await d.add(d.fns["sync"], key=f"{n}.{k}")(who=f"{n}:{c[k][0]}", region=f"{n}:{c[k][1]}", tag=f"{n}.{k}")
                await asyncio.sleep(1)

    def check(self, env):
        ran = {e[3] for e in starts(env)}
        for n, c in enumerate(self.cases()):
            a, b = set(), set()
            for k, x in enumerate(c):
                ok = x[0] not in a and x[1] not in b
                if ok: a.add(x[0]); b.add(x[1])
                if ok != (f"{n}.{k}" in ran):
                    return [("multiple-" + ("dropped" if ok else "admitted"), f"calls {c} (customer and region, each with a cooldown): call {k} {'was dropped' if ok else 'ran'}; ran: {[j for j in range(4) if f'{n}.{j}' in ran]}")]
        return []

    def counts(self, env): return len(self.cases()), 4 * len(self.cases())


class Blocked(World):
    """A task with a cooldown that another control makes wait is not dropped when its turn comes."""
    poll = 0.1
    other = "limit"
    redelivery = 10.0

    def tasks(self, env):
        c = {"limit": ConcurrencyLimit(1), "rate": RateLimit(1, per=S(2))}[self.other]
        if self.order == "last":
            async def job(r: Annotated[str, c], who: Annotated[str, Cooldown(S(30))]):
                async with body(env, who): await asyncio.sleep(1.0)
        else:
            async def job(who: Annotated[str, Cooldown(S(30))], r: Annotated[str, c]):
                async with body(env, who): await asyncio.sleep(1.0)
        return {"job": job}
    order = "first"

    async def main(self, env):
        async with self.client(env) as d:
            for n in range(self.workers): self.start_worker(env, f"w{n}")
            await asyncio.sleep(0.2)
            for k in "abc": await d.add(d.fns["job"], key=k)(who=k, r="r")
            await asyncio.sleep(14)
            return [(await d.get_execution(k)).state.value for k in "abc"]
    workers = 1

    def check(self, env):
        r = sorted(e[3] for e in starts(env))
        if r != ["a", "b", "c"]: return [("waited-then-dropped", f"tasks with their own cooldowns waiting for another control ({self.other}): ran {r}, records {env.value}")]
        return []


class Held(World):
    """A call inside the window is dropped for good, also when another control would have made it wait."""
    poll = 0.1
    redelivery = 10.0
    workers = 1
    order = "first"

    def tasks(self, env):
        c = {"limit": ConcurrencyLimit(1), "rate": RateLimit(1, per=S(1))}[self.other]
        if self.order == "first":
            async def job(tag: str, r: Annotated[str, c], x: Cooldown = Cooldown(S(0.5))):
                async with body(env, tag): await asyncio.sleep(0.9)
        else:
            async def job(tag: str, who: Annotated[str, Cooldown(S(0.5))] = "w", r: Annotated[str, c] = "r"):
                async with body(env, tag): await asyncio.sleep(0.9)
        return {"job": job}

    async def main(self, env):
        out = []
        async with self.client(env) as d:
            for n in range(self.workers): self.start_worker(env, f"w{n}")
            await asyncio.sleep(0.2)
            for k in "abc":
                await d.add(d.fns["job"], key=k)(tag=k, r="r")
                await asyncio.sleep(0.2)
            for t in range(2):
                out.append([(await d.get_execution(k)).state.value for k in "abc"])
                await asyncio.sleep(12)
            return out

    def check(self, env):
        r = sorted(e[3] for e in starts(env))
        if r != ["a"] or env.value[0][1:] != ["cancelled"] * 2 or env.value[1] != ["completed", "cancelled", "cancelled"]:
            return [("dropped-then-ran", f"three calls within the window, of a task also subject to another control ({self.other}): ran {r}, records soon after {env.value[0]}, later {env.value[1]}")]
        return []


class Race(World):
    """Two candidates at once, on one or two workers; later a third after the window; or a worker that dies."""
    poll = 0.5
    redelivery = 4.0
    hold_limit = 0.3
    workers = 2
    secs = 0.3
    third = 2.0
    window = 1.2

    def tasks(self, env):
        w = self.window

        async def job(tag: str, c: Cooldown = Cooldown(S(w))):
            async with body(env, tag): await asyncio.sleep(self.secs)
        return {"job": job}

    async def main(self, env):
        async with self.client(env) as d:
            for n in range(self.workers): self.start_worker(env, f"w{n + 1}")
            await asyncio.sleep(0.4)
            env.explore = True
            for k in self.keys: await d.add(d.fns["job"], key=k)(k)
            await asyncio.sleep(1.0)
            env.explore = False
            await asyncio.sleep(self.third - 1.0)
            if self.third > 0: await d.add(d.fns["job"], key="z")("z")
            if self.dies: self.start_worker(env, "w9")
            await asyncio.sleep(10)
            return {k: (await d.get_execution(k)).state.value for k in self.keys + ("z",)}
    keys = ("a", "b")
    dies = False

    def allow_crash(self, op, env): return self.dies and op.proc == "w1"

    def check(self, env):
        st = starts(env)
        ran = [e[3] for e in st]
        out = []
        first = [e for e in st if e[3] != "z"]
        done = {e[3] for e in finishes(env)}
        if len({e[3] for e in first}) != 1: out.append(("candidates", f"of the candidates {self.keys}, {ran} ran (records {env.value})"))
        if not self.dies:
            if len(first) > 1: out.append(("twice", f"runs: {ran}"))
            if ran.count("z") != 1: out.append(("after-window", f"a call {self.third} s later, after the window of {self.window} s: ran {ran}, records {env.value}"))
        for k in self.keys:
            if k in done and env.value[k] != "completed" or k not in ran and env.value[k] != "cancelled": out.append(("record", f"ran {ran}, records {env.value}"))
            if k in ran and k not in done: out.append(("lost", f"{k} began, its worker died, and it was never finished: ran {ran}, records {env.value}"))
        return out


class Dies(Race):
    """The worker that admitted the only candidate dies: the redelivered task still runs."""
    dies = True
    keys = ("a",)
    window = 60.0
    workers = 1
    third = 1.0

    def check(self, env):
        ran = [e[3] for e in starts(env)]
        done = {e[3] for e in finishes(env)}
        if "a" in done or ("z" in done and "a" not in ran): return []
        return [("lost", f"a worker died while taking up the first of two calls: ran {ran}, finished {done}, records {env.value}")]


def work(tier):
    deep = tier == "thorough"
    out = []
    for form in ("param", "positional", "default", "task"):
        for how in ("now", "due"):
            for w in (1, 2):
                if not deep and (w == 2 and how == "due"): continue
                for secs in ((0.0, 0.6) if deep or (form, how) == ("param", "now") else (0.3,)):
                    out.append((Cool(name=f"grid-{form}-{how}-{w}-{secs}", form=form, how=how, workers=w, secs=secs), Bounds(depth=0)))
    for form in ("param", "task"):
        for w in (1, 2): out.append((Cool(name=f"same-key-{form}-{w}", form=form, workers=w, same_key=True), Bounds(depth=0)))
    out.append((Two(name="multiple"), Bounds(depth=0)))
    out.append((Two(name="multiple-same-values", values=("ab", "ba", "aa", "bb", "ac")), Bounds(depth=0)))
    for other in ("limit", "rate"):
        for order in ("first", "last"):
            for w in (1, 2): out.append((Blocked(name=f"waits-{other}-{order}-{w}", other=other, order=order, workers=w), Bounds(depth=0)))
            for w in (1, 2): out.append((Held(name=f"dropped-{other}-{order}-{w}", other=other, order=order, workers=w), Bounds(depth=0)))
    b = Bounds(2, m=3, hold=1)
    out.append((Race(name="race", workers=2), b))
    out.append((Race(name="race-one-worker", workers=1), b))
    out.append((Race(name="race-three", workers=2, keys=("a", "b", "c")), Bounds(1 if not deep else 2, m=3, hold=1)))
    out.append((Dies(name="dies"), Bounds(1 if not deep else 2, m=0, crash=1, hold=1)))
    return out
