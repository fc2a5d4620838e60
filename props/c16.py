"""C16: a rate limit admits at most its quota in every window."""
from docket import Cooldown, ConcurrencyLimit, RateLimit
from props.adm import *

RULE = ("all arrival patterns of up to five submissions on a grid of gaps, quotas 1 to 3, postponing and dropping, per task and per parameter, one "
        "and two workers, immediate and due; combinations with other controls; candidates at once and a dying worker, with all placements of "
        "holds, reversals and crashes")


class Rate(Arrivals):
    quota = 2
    drop = False
    tail = 8.0

    def control(self): return RateLimit(self.quota, per=S(self.window), drop=self.drop)

    def patterns(self):
        if self.same_key: return gaps((0.3, 0.85), 5)
        p = gaps((0.0, 0.3, 0.85, 1.2), 5)
        return p if self.quota == 2 else [x for x in p if len(x) in ((2, 3, 4) if self.quota == 1 else (4, 5))]

    def check(self, env):
        # a postponed task must not be called dropped
        return super().check(env)

    def judge(self, p, r):
        n, w = self.quota, self.window
        s = [t for t, _ in r]
        for a, b in zip(s, s[n:]):
            if b < a + w - EPS: yield "over", f"{n + 1} executions began between {a:.3f} and {b:.3f}, the limit is {n} per {w} s"
        if not self.drop:
            if len(s) != len(p): yield "lost", f"{len(s)} of {len(p)} ran"
            for k, t in enumerate(s):
                due = max(p[k], s[k - n] + w if k >= n else 0)
                if t > due + LAT: yield "late", f"run {k} began at {t:.3f}, there was room for it from {due:.3f}"
            first = {i: t for t, i in r}
            for i, t in first.items():
                if t < p[i] - EPS: yield "early", f"submission {i} began at {t}"
        else:
            for t in sorted(set(p)):
                who = [i for i, x in enumerate(p) if x == t]
                room = n - sum(1 for a in s if t - w < a < t - EPS)
                k = [(a, i) for a, i in r if i in who]
                if len(k) != min(len(who), max(room, 0)): yield "dropped" if len(k) < min(len(who), room) else "admitted", f"of {len(who)} submissions at {t:.2f} with room for {room}, {len(k)} ran"
                for a, i in k:
                    if not t - EPS <= a <= t + LAT: yield "late", f"submission {i} began at {a:.3f}"


class Race(World):
    """Candidates at once."""
    poll = 0.25
    redelivery = 4.0
    hold_limit = 0.2
    workers = 2
    drop = False
    quota = 1
    n = 3
    per = 1.5
    combined = None

    def tasks(self, env):
        c = dict(quota=self.quota)
        rl = RateLimit(self.quota, per=S(self.per), drop=self.drop)
        if self.combined is None:
            async def job(tag: str, x: RateLimit = rl):
                async with body(env, tag): await asyncio.sleep(0.1)
        elif self.combined in ("limit", "mixed"):
            async def job(tag: str, who: Annotated[str, ConcurrencyLimit(1)] = "w", x: RateLimit = rl):
                async with body(env, tag): await asyncio.sleep(0.3)
        elif self.combined == "limit-first":
            async def job(tag: str, who: Annotated[str, rl] = "w", x: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=1)):
                async with body(env, tag): await asyncio.sleep(0.3)
        else:
            async def job(tag: str, who: Annotated[str, Cooldown(S(60))], x: RateLimit = rl):
                async with body(env, tag): await asyncio.sleep(0.1)
        return {"job": job}

    async def main(self, env):
        async with self.client(env) as d:
            for n in range(self.workers): self.start_worker(env, f"w{n + 1}")
            await asyncio.sleep(0.4)
            env.explore = True
            for k in range(self.n):
                if self.combined == "cool": await d.add(d.fns["job"], key=f"k{k}")(f"k{k}", f"u{k // 2}")
                elif self.combined == "mixed": await d.add(d.fns["job"], key=f"k{k}")(f"k{k}", "p" if k % 3 < 2 else f"q{k}")
                else: await d.add(d.fns["job"], key=f"k{k}")(f"k{k}")
            await asyncio.sleep(self.per + 0.4)
            env.explore = False
            if self.dies: self.start_worker(env, "w9")
            await asyncio.sleep(self.n * self.per / self.quota + 9)
            return {f"k{k}": (await d.get_execution(f"k{k}")).state.value for k in range(self.n)}
    dies = False

    def check(self, env):
        st = starts(env)
        out = []
        ran = [e[3] for e in st]
        r = [(round(e[0], 3), e[3]) for e in st]
        t = [e[0] for e in st]
        # a hold may come between admission and start
        slack = EPS + self.hold_limit * env.nheld + 0.02
        for a, b in zip(t, t[self.quota:]):
            if b < a + self.per - slack: out.append(("over", f"{self.quota + 1} executions within {b - a:.3f} s; runs {r}"))
        if len(set(ran)) != len(ran): out.append(("twice", f"runs {r}"))
        want = self.n if not self.drop else self.quota
        if self.combined == "cool": want = (self.n + 1) // 2
        if len(set(ran)) != want: out.append(("lost" if len(set(ran)) < want else "admitted", f"{len(set(ran))} of {self.n} ran, expected {want}; runs {r}, records {env.value}"))
        for k, v in env.value.items():
            if v != ("completed" if k in ran else "cancelled"): out.append(("record", f"runs {r}, records {env.value}"))
        return out


class Shared(Race):
    """Some of the calls are admitted by the rate limit but then made to wait by another control: they do not use up quota meanwhile."""
    quota = 4
    n = 6
    per = 3.0
    combined = "mixed"

    async def main(self, env):
        async with self.client(env) as d:
            for n in range(self.workers): self.start_worker(env, f"w{n + 1}")
            await asyncio.sleep(0.4)
            due = utc() + S(1)
            for k, who in enumerate("pppqrs"):
                if k == 4: await asyncio.sleep(1.5)
                await d.add(d.fns["job"], key=f"k{k}", when=due if k < 4 else None)(f"k{k}", who)
            await asyncio.sleep(9)
            return {f"k{k}": (await d.get_execution(f"k{k}")).state.value for k in range(self.n)}

    def check(self, env):
        out = super().check(env)
        r = {e[3]: e[0] for e in starts(env)}
        for k in ("k3", "k4"):
            if r.get(k, 99) > (1.4 if k == "k3" else 1.9) + self.poll + LAT: out.append(("held-up", f"limit 4 per {self.per} s, three tasks limited to one at a time and three others: within quota, {k} began at {r.get(k)}; all runs {r}"))
        return out


class Dies(Race):
    """A worker dies with an admitted task: it is redelivered and neither dropped nor held up by its own earlier start."""
    dies = True
    n = 1
    workers = 1
    per = 60.0

    async def main(self, env):
        self.env = env
        async with self.client(env) as d:
            self.start_worker(env, "w1")
            await asyncio.sleep(0.4)
            env.explore = True
            await d.add(d.fns["job"], key="k0")("k0")
            await asyncio.sleep(1.0)
            env.explore = False
            self.start_worker(env, "w9")
            await asyncio.sleep(12)
            return {"k0": (await d.get_execution("k0")).state.value}

    def allow_crash(self, op, env): return op.proc == "w1"

    def check(self, env):
        if {e[3] for e in finishes(env)} != {"k0"} or env.value != {"k0": "completed"}:
            return [("lost", f"a worker died while taking up the only task (limit {self.quota} per {self.per} s, drop={self.drop}): runs {[(e[0], e[1]) for e in starts(env)]}, record {env.value}")]
        return []


def work(tier):
    deep = tier == "thorough"
    out = []
    for drop in (False, True):
        for quota in (1, 2, 3):
            for form in ("param", "positional", "default", "task"):
                for how, w in (("now", 1), ("now", 2), ("due", 1)):
                    if not deep and not (form == "param" and (how == "now" or quota == 2) or form != "param" and quota == 2 and (how, w) == ("now", 1)): continue
                    n = 4 if quota == 2 and not deep else 1
                    for i in range(n if deep or form == "param" else 1):
                        out.append((Rate(name=f"grid-{'drop' if drop else 'wait'}-{quota}-{form}-{how}-{w}-{i}", drop=drop, quota=quota, form=form, how=how, workers=w, part=(i, n)), Bounds(depth=0)))
        b = Bounds(1 if not deep else 2, m=3, hold=1)
        for w in (1, 2): out.append((Race(name=f"race-{'drop' if drop else 'wait'}-{w}", drop=drop, workers=w), b))
        out.append((Race(name=f"race-{'drop' if drop else 'wait'}-two", drop=drop, quota=2, n=4), b))
        out.append((Dies(name=f"dies-{'drop' if drop else 'wait'}", drop=drop), Bounds(1 if not deep else 2, m=0, crash=1, hold=1)))
    for quota in (1, 2): out.append((Rate(name=f"same-key-{quota}", drop=True, quota=quota, workers=quota, same_key=True), Bounds(depth=0)))
    for c in ("limit", "limit-first", "cool"):
        for w in (1, 2): out.append((Race(name=f"with-{c}-{w}", combined=c, quota=2, n=4, workers=w), Bounds(1 if not deep else 2, m=3, hold=1)))
    for w in (1, 2): out.append((Race(name=f"with-mixed-{w}", combined="mixed", quota=3, n=6, workers=w), Bounds(1 if not deep else 2, m=3, hold=1)))
    for w in (1, 2): out.append((Shared(name=f"shared-{w}", workers=w), Bounds(depth=0)))
    return out
