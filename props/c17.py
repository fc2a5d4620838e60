"""C17: debounce runs one submission of a burst, once things have settled."""
from docket import Debounce, ConcurrencyLimit, RateLimit, Cooldown
from props.adm import *

RULE = ("all arrival patterns of up to five submissions on a grid of gaps, per task and per parameter, one and two workers, immediate and due; "
        "submissions at once on two workers with all placements of holds and reversals; a cancelled winner followed by later bursts")


class Deb(Arrivals):
    def control(self): return Debounce(S(self.window))
    def patterns(self): return gaps((0.0, 0.4, 0.85, 1.25, 2.4), 4) + [p for p in gaps((0.2, 0.8, 1.2), 6) if len(p) in (5, 6)]

    def judge(self, p, r):
        bursts = []
        for t in p:
            if bursts and t - bursts[-1][-1] < self.window: bursts[-1].append(t)
            else: bursts.append([t])
        for n, b in enumerate(bursts):
            who = [i for i, t in enumerate(p) if t in b]
            k = [x for x in r if x[1] in who]
            due = b[-1] + self.window
            if len(k) != 1: yield ("none" if not k else "several"), f"of the burst {[round(t, 2) for t in b]}, {len(k)} ran"
            elif k[0][0] < due - EPS: yield "unsettled", f"the run of the burst {[round(t, 2) for t in b]} began at {k[0][0]:.3f}, before it had settled"
            elif k[0][0] > due + LAT: yield "late", f"the run of the burst {[round(t, 2) for t in b]} began at {k[0][0]:.3f}"


class Slow(Deb):
    """The same with workers that look for due tasks only now and then."""
    poll = 0.7

    def patterns(self): return gaps((0.0, 0.4, 0.85, 3.0), 4)

    def judge(self, p, r):
        return [(k, x) for k, x in super().judge(p, r) if k != "late"]


class Race(World):
    poll = 0.25
    redelivery = 10.0
    hold_limit = 0.2
    workers = 2
    n = 2
    settle = 1.0
    then = ()
    cancel = None
    dies = False

    def tasks(self, env):
        s = self.settle

        async def job(tag: str, x: Debounce = Debounce(S(s))):
            async with body(env, tag): pass
        return {"job": job}

    def allow_crash(self, op, env): return op.proc == "w1"

    async def main(self, env):
        async with self.client(env) as d:
            for n in range(self.workers): self.start_worker(env, f"w{n + 1}")
            await asyncio.sleep(0.4)
            env.explore = True
            for k in range(self.n): await d.add(d.fns["job"], key=f"a{k}")(f"a{k}")
            await asyncio.sleep(1.8 if not self.cancel else 0.3)
            if self.cancel: await d.cancel(self.cancel)
            await asyncio.sleep(0.2)
            env.explore = False
            if self.dies:
                self.start_worker(env, "w9")
                await asyncio.sleep(self.redelivery + 4)
            t0 = env.t()
            env.data.t = []
            for t in self.then:
                await asyncio.sleep(max(0, t0 + t - env.t()))
                k = f"b{len(env.data.t)}"
                env.data.t.append(env.t())
                await d.add(d.fns["job"], key=k)(k)
            await asyncio.sleep(5)
            return {k: (await d.get_execution(k)).state.value for k in [f"a{k}" for k in range(self.n)] + [f"b{k}" for k in range(len(self.then))]}

    def check(self, env):
        r = [(round(e[0], 3), e[3]) for e in starts(env)]
        a = [x for x in r if x[1][0] == "a"]
        b = [x for x in r if x[1][0] == "b"]
        out = []
        if self.dies:
            if not a: out.append(("none", f"a worker died: of {self.n} submissions none ran (records {env.value})"))
        elif not self.cancel:
            if len(a) != 1: out.append(("none" if not a else "several", f"of {self.n} submissions at once {len(a)} ran: {r}, records {env.value}"))
            elif a[0][0] < 0.4 + self.settle - EPS or a[0][0] > 0.4 + self.settle + 2 * self.poll + 0.1 + 2 * self.hold_limit * env.nheld: out.append(("when", f"submissions at 0.4 s settle in {self.settle} s: runs {r}"))
        # then: bursts well apart
        last, bursts = None, []
        for n, t in enumerate(env.data.t):
            if last is None or t - last > self.settle: bursts.append([])
            bursts[-1].append(f"b{n}")
            last = t
        for x in bursts:
            k = [y for y in b if y[1] in x]
            if len(k) != 1: out.append(("later-none" if not k else "later-several", f"of the later burst {x} (at {[round(t, 2) for t in env.data.t]}) {len(k)} ran: {r}, records {env.value}"))
        for k, v in env.value.items():
            ran = any(y == k for _, y in r)
            if v != ("completed" if ran else "cancelled") and not self.dies: out.append(("record", f"runs {r}, records {env.value}"))
        return out


class Cancelled(Race):
    """The submission chosen to run is cancelled; later bursts run again (the burst itself may go without)."""

    def check(self, env):
        return [x for x in super().check(env) if x[0] not in ("record",) or env.value.get(self.cancel) != "cancelled"]


def work(tier):
    deep = tier == "thorough"
    out = []
    for form in ("param", "positional", "default", "task"):
        for how, w in (("now", 1), ("now", 2), ("due", 1), ("due", 2)):
            if not deep and form != "param" and (how, w) != ("now", 1): continue
            n = 4
            for i in range(n if deep or form == "param" else 1):
                out.append((Deb(name=f"grid-{form}-{how}-{w}-{i}", form=form, how=how, workers=w, part=(i, n)), Bounds(depth=0)))
    for form in ("param", "task"):
        for w in (1, 2): out.append((Slow(name=f"slow-{form}-{w}", form=form, workers=w), Bounds(depth=0)))
    b = Bounds(2 if deep else 1, m=3, hold=1)
    for w in (1, 2):
        for n in (2, 3): out.append((Race(name=f"race-{n}-{w}", workers=w, n=n), b))
        out.append((Cancelled(name=f"cancelled-{w}", workers=w, n=2, cancel="a0", then=(1.6, 1.9, 4.0, 6.0, 6.2)), b))
        out.append((Cancelled(name=f"cancelled-loser-{w}", workers=w, n=2, cancel="a1", then=(2.6, 2.9, 5.0)), b))
    out.append((Race(name="dies", workers=1, dies=True, redelivery=4.0, then=(2.0, 2.5)), Bounds(1, m=0, crash=1)))
    return out
