"""C29: no task starts before its time, and due tasks start promptly."""
from datetime import datetime, timedelta, timezone
from docket import Perpetual, Retry, ExponentialRetry
from props.keyseq import family
from mc.world import *
from mc.explore import Bounds

RULE = ("every way of scheduling a task for a time (added, replaced either way while parked or due, retried, perpetual, rescheduling itself, adding others, while no worker is up, given in any time zone), "
        "its time on a grid relative to the worker's polls, for several polling intervals; one and two workers with all placements of holds, of crashes and of replacements; "
        "all sequences of scheduling operations on a key")
EDGE = 1e-4             # of arithmetic with floats and microseconds
LAT = 0.1


class Grid(World):
    """Many keys of one kind, on a grid of times."""
    check_interval = 0.3
    resolution = 0.3
    kind = "add"
    xs = ()
    concurrency = 100
    max_ops = 500000
    nworkers = 1

    def due(self, env, key, when, made=None):
        """From here on, the next start of key is expected at when (seconds of virtual time)."""
        env.ev("due", key, when, env.t() if made is None else made)

    def at(self, env, x): return datetime.fromtimestamp(env.now() + x, timezone.utc)

    def tasks(self, env):
        plan = env.data.__dict__.setdefault("plan", {})

        async def job(k: str): env.ev("start", k)

        async def retried(k: str, r: Retry = Retry(attempts=3)):
            env.ev("start", k)
            if r.attempt == 3: return
            how, x = plan[k]
            self.due(env, k, env.t() + x)
            if how == "after": r.after(S(x))
            elif how == "in": r.in_(S(x))
            else: r.at(self.at(env, x))

        async def perp(k: str, p: Perpetual = Perpetual(every=S(50))):
            env.ev("start", k)
            n = env.data.__dict__.setdefault("count", {})
            n[k] = n.get(k, 0) + 1
            if n[k] == 3: return p.cancel()
            how, x = plan[k]
            self.due(env, k, env.t() + x)
            if how == "after": p.after(S(x))
            else: p.at(self.at(env, x))

        async def again(k: str):
            env.ev("start", k)
            n = env.data.__dict__.setdefault("count", {})
            n[k] = n.get(k, 0) + 1
            if n[k] == 3: return
            x = plan[k][1]
            d = env.data.wd
            self.due(env, k, env.t() + x)
            await d.replace(d.fns["again"], key=k, when=self.at(env, x))(k)

        async def parent(k: str):
            env.ev("start", k)
            x = plan[k][1]
            d = env.data.wd
            self.due(env, k + "-child", env.t() + x)
            await d.add(d.fns["job"], key=k + "-child", when=self.at(env, x))(k + "-child")
        out = dict(job=job, retried=retried, perp=perp, again=again, parent=parent)

        def make(x):
            async def fixed(k: str, r: Retry = Retry(attempts=3, delay=S(x))):
                env.ev("start", k)
                if r.attempt < 3: self.due(env, k, env.t() + x)
                raise ValueError()

            async def exp(k: str, r: Retry = ExponentialRetry(attempts=4, minimum_delay=S(x), maximum_delay=S(3 * x))):
                env.ev("start", k)
                if r.attempt < 4: self.due(env, k, env.t() + min(x * 2 ** (r.attempt - 1), 3 * x))
                raise ValueError()

            async def every(k: str, p: Perpetual = Perpetual(every=S(x))):
                env.ev("start", k)
                n = env.data.__dict__.setdefault("count", {})
                n[k] = n.get(k, 0) + 1
                if n[k] == 4: return p.cancel()
                self.due(env, k, env.t() + x)
                if n[k] == 2: await asyncio.sleep(x / 2)
                if n[k] == 3: raise ValueError()
            return fixed, exp, every
        for i, x in enumerate(self.xs):
            for f in make(x):
                f.__name__ += str(i)
                out[f.__name__] = f
        return out

    async def run_worker(self, env, name, **kw):
        async with self.client(env) as d:
            env.data.wd = d
            async with self.worker(d, name, minimum_check_interval=S(self.check_interval), scheduling_resolution=S(self.resolution)) as w:
                await w.run_forever()

    async def main(self, env):
        async with self.client(env) as d:
            if self.kind != "down":
                for n in range(self.nworkers): self.start_worker(env, f"w{n + 1}")
                await asyncio.sleep(0.5)
            fns = d.fns
            later = []
            for i, x in enumerate(self.xs):
                k = f"k{i}"
                kind = self.kind
                t = env.t()
                if kind in ("add", "down", "zone"):
                    when = self.at(env, x)
                    if kind == "zone": when = when.astimezone(timezone(timedelta(hours=(-11, 5.5, 14)[i % 3])))
                    self.due(env, k, t + x)
                    await d.add(fns["job"], key=k, when=when)(k)
                elif kind == "name":
                    self.due(env, k, t + x)
                    await d.add("job", key=k, when=self.at(env, x))(k)
                elif kind in ("later", "sooner", "much-later"):
                    a, b, at = {"later": (x, x + 0.7, max(0, x - 0.15)), "sooner": (x + 2, x, 0.1 * (i % 5)), "much-later": (x, x + 600.0, x / 2)}[kind]
                    await d.add(fns["job"], key=k, when=self.at(env, a))(k)
                    later.append((t + at, k, t + b))
                elif kind in ("fixed", "exp", "every"):
                    self.due(env, k, t)
                    await d.add(fns[f"{kind}{i}"], key=k)(k)
                else:
                    f, how = kind.split("-")
                    env.data.plan[k] = (how, x)
                    self.due(env, k, t)
                    await d.add(fns[f], key=k)(k)
            if self.kind == "down":
                await asyncio.sleep(0.9)
                env.data.up = env.t()
                for n in range(self.nworkers): self.start_worker(env, f"w{n + 1}")
            for t, k, due in sorted(later):
                await asyncio.sleep(max(0, t - env.t()))
                if any(e[3] == k for e in evs(env, "start")): continue     # it was due already
                self.due(env, k, due)
                await d.replace(fns["job"], key=k, when=datetime.fromtimestamp(env.now() - env.t() + due, timezone.utc))(k)
            await asyncio.sleep(8 * max(self.xs) + 4 * (self.check_interval + self.resolution) + 4 + (600 if self.kind == "much-later" else 0))

    def check(self, env):
        out, due = [], {}
        late = self.check_interval + self.resolution + LAT
        what = f"{self.kind}, polls every {self.check_interval} and {self.resolution}"
        for e in env.events:
            if e[2] == "due": due[e[3]] = (e[4], e[5])
            elif e[2] == "start":
                if e[3] not in due:
                    if self.kind not in ("later", "sooner", "much-later"): out.append(("again", f"{what}: {e[3]} started at {e[0]}, which nothing asked for"))
                    continue
                when, made = due.pop(e[3])
                if e[0] < when - EDGE: out.append(("early", f"{what}: {e[3]} started at {e[0]}, {when - e[0]:.6f} s before its time"))
                base = max(when, made, env.data.__dict__.get("up", 0.0))
                if self.kind == "every": base = max(base, made + self.xs[int(e[3][1:])] / 2)
                if e[0] > base + late: out.append(("late", f"{what}: {e[3]}, due at {when} (asked for at {made}), started at {e[0]}"))
        for k, (when, made) in due.items(): out.append(("never", f"{what}: {k}, due at {when} (asked for at {made}), did not start"))
        return out

    def covered(self, env): return {self.kind}


class Races(World):
    """Few tasks; the workers' and the user's operations in every order."""
    poll = 0.4
    hold_limit = 0.7
    redelivery = 3.0
    concurrency = 4
    nworkers = 2
    xs = (0.5,)
    moves = ()              # (time, index, new time from then)
    victims = ()
    injected = ()           # index -> replaced to that far in the future at every operation
    slots = 4
    busy = False

    def allow_crash(self, op, env): return op.proc in self.victims
    def injections(self): return self.injected

    def tasks(self, env):
        async def job(k: str, due: float, tag: int):
            env.ev("start", k, due, tag)

        async def blocker():
            await asyncio.sleep(1.0)

        async def perp(k: str, p: Perpetual = Perpetual(every=S(self.xs[0]))):
            env.ev("start", k, env.data.__dict__.setdefault("next", {}).get(k, 0.0), 0)
            env.data.next[k] = env.t() + self.xs[0]

        async def flaky(k: str, r: Retry = Retry(attempts=3, delay=S(self.xs[0]))):
            env.ev("start", k, env.data.__dict__.setdefault("next", {}).get(k, 0.0), 0)
            env.data.next[k] = env.t() + self.xs[0]
            raise ValueError()
        return dict(job=job, blocker=blocker, perp=perp, flaky=flaky)
    fn = "job"

    async def move(self, env, i, x):
        d = env.data.client
        n = env.data.tags = env.data.__dict__.get("tags", 10) + 1
        due = env.t() + x
        env.ev("move", f"k{i}", due, n)
        await d.replace(d.fns["job"], key=f"k{i}", when=datetime.fromtimestamp(env.now() + x, timezone.utc))(f"k{i}", due, n)
        env.ev("moved", f"k{i}", due, n)

    async def inject(self, env, which):
        if evs(env, "moved"): await self.move(env, 0, which)

    async def main(self, env):
        async with self.client(env) as d:
            env.data.client = d
            env.explore = True
            for n in range(self.nworkers): self.start_worker(env, f"w{n + 1}", concurrency=1 if self.busy else self.concurrency)
            if self.busy:
                await d.add(d.fns["blocker"], key="b")()
                await asyncio.sleep(0.2)
            for i, x in enumerate(self.xs):
                if self.fn == "job":
                    due = env.t() + x
                    env.ev("move", f"k{i}", due, i)
                    await d.add(d.fns["job"], key=f"k{i}", when=datetime.fromtimestamp(env.now() + x, timezone.utc))(f"k{i}", due, i)
                    env.ev("moved", f"k{i}", due, i)
                else: await d.add(d.fns[self.fn], key=f"k{i}")(f"k{i}")
            for t, i, x in self.moves:
                await asyncio.sleep(max(0, t - env.t()))
                await self.move(env, i, x)
            await asyncio.sleep(max(0, 2.5 - env.t()))
            env.explore = False
            if self.fn == "perp": await d.cancel("k0")
            await asyncio.sleep(3 + (self.redelivery + 2 if self.victims else 0))

    def check(self, env):
        out = []
        line = [(round(e[0], 4), *e[2:]) for e in env.events if e[2] in ("start", "move", "moved", "crash", "inject")]
        late = 2 * self.poll + LAT + 2 * self.hold_limit * env.nheld + (self.redelivery + 1 if self.victims else 0) + (1.0 if self.busy else 0)
        for e in evs(env, "start"):
            if e[0] < e[4] - EDGE: out.append(("early", f"{e[3]} started at {e[0]}, {e[4] - e[0]:.6f} s before its time: {line}"))
            if e[4] and e[0] > e[4] + late and not (self.victims and e[5] == 0): out.append(("late", f"{e[3]}, due at {e[4]}, started at {e[0]}: {line}"))
        last = {}
        for e in evs(env, "move"): last[e[3]] = e
        for k, e in last.items():
            s = [x for x in evs(env, "start") if x[3] == k and x[5] == e[5]]
            if not s: out.append(("never", f"{k}, due at {e[4]}, did not start: {line}"))
        return out

    def covered(self, env): return {self.fn}


KINDS = ("add", "name", "zone", "later", "sooner", "much-later", "down", "fixed", "exp", "every", "retried-after", "retried-in", "retried-at", "perp-after", "perp-at", "again-x", "parent-x")


def work(tier):
    deep = tier == "thorough"
    out = []
    polls = [(0.3, 0.3), (0.25, 1.0), (1.0, 0.25)] + ([(0.05, 0.5), (0.5, 0.05), (2.0, 2.0), (0.37, 0.23)] if deep else [])
    for kind in KINDS:
        for ci, re in polls:
            top = max(ci, re) * 2
            n = 20 if not deep else 60
            xs = tuple(round(0.01 + top * i / n, 6) for i in range(n)) + tuple(round(re * j + d, 6) for j in (1, 2) for d in (-1e-6, 0, 1e-6))
            if kind in ("add", "name", "zone", "down"): xs += (-5.0, -1e-6, 0.0, -864000.0)
            for nw in (1, 2):
                if nw == 2 and kind not in ("add", "later", "fixed", "every", "again-x") and not deep: continue
                out.append((Grid(name=f"{kind}-{ci}-{re}-{nw}", kind=kind, check_interval=ci, resolution=re, xs=xs, nworkers=nw), Bounds(0)))
    d = 2 if deep else 1
    for x in (0.3, 0.55):
        out.append((Races(name=f"two-{x}", xs=(x, 0.7)), Bounds(d, m=2, hold=d)))
        out.append((Races(name=f"inject-{x}", xs=(x,), injected=(0.5, 0.0, 1.1)), Bounds(d, m=1, inject=1, hold=d - 1)))
        out.append((Races(name=f"moves-{x}", xs=(x,), moves=((0.2, 0, 0.9), (0.6, 0, 0.25))), Bounds(d, m=2, hold=d)))
        out.append((Races(name=f"crash-{x}", xs=(x, 0.7), victims=("w1",)), Bounds(d, m=1, crash=1, **({"hold": 1} if deep else {}))))
    out.append((Races(name="busy", xs=(0.0,), nworkers=1, busy=True, injected=(0.5, 1.5)), Bounds(d, m=1, inject=1, hold=d - 1)))
    for fn in ("perp", "flaky"): out.append((Races(name=fn, xs=(0.45,), fn=fn), Bounds(d, m=2, hold=d)))
    out += family(("C29",), tier, only=None if deep else "idle|shortttl|live-flaky")
    return out
