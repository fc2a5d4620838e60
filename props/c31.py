"""C31: an agenda is scattered completely, in order and within its window."""
import itertools, random
from docket import Agenda
from mc.world import *
from mc.explore import Bounds

RULE = ("all agendas up to a size, over windows, starts, jitters and every outcome of the jitter's extremes on a grid; all agendas up to three entries "
        "over kinds of entries and keys; scatters run by a worker; and scatters interleaved with another scatter of the same keys")
US = 1e-6


class Jitter:
    """The random source answers with the given positions (0..1) in turn."""
    def __init__(self, seq): self.it = itertools.cycle(seq)
    def random(self): return next(self.it)
    def uniform(self, a, b): return a + (b - a) * next(self.it)

    def __enter__(self):
        self.saved = random.random, random.uniform
        random.random, random.uniform = self.random, self.uniform

    def __exit__(self, *a): random.random, random.uniform = self.saved


class Base(World):
    def tasks(self, env):
        async def f(*a, **k): env.ev("start", "f", a, tuple(sorted(k.items())))
        async def g(*a, **k): env.ev("start", "g", a, tuple(sorted(k.items())))
        return {"f": f, "g": g}

    def check(self, env): return self.bad
    def counts(self, env): return self.n, self.n
    max_ops = 10 ** 7
    max_time = 1e9


def ideal(n, start, over): return [start + over / 2] if n == 1 else [start + over * i / (n - 1) for i in range(n)]


class Times(Base):
    size = 3

    async def main(self, env):
        self.bad, self.n = [], 0
        n = self.size
        j = 0
        for over in (0.001, 1.0, 7.0, 3600.0, 86400.0 * 40):
            for start in (None, 5.0, -5.0, 86400.0):
                for jit in (None, 0.0, 0.25, 10.0, over, 3 * over):
                    pats = [(0.5,)] if not jit else [p for p in itertools.product((0.0, 0.999999), repeat=min(n, 3))] + [(0.25, 0.5, 1.0)]
                    for pat in pats:
                        j += 1
                        self.docket_name = f"d{j}"
                        async with self.client(env) as d:
                            a = Agenda()
                            for i in range(n): a.add(d.fns["fg"[i % 2]], key=f"k{i}" if i % 3 else None)(i, tag=i)
                            t0 = env.t()
                            st = utc() + S(start) if start is not None else None
                            with Jitter(pat): ex = await a.scatter(d, over=S(over), start=st, jitter=S(jit) if jit is not None else None)
                            t1 = env.t()
                            base = (st.timestamp() if st else utc().timestamp() - (t1 - t0))
                            slack = 2 * US if st else (t1 - t0) + 2 * US
                            self.n += 1
                            self.judge(env, d, n, ex, base, over, jit or 0.0, slack, f"{n} entries over {over} s from {start} with jitter {jit} {pat}")
                            await d.clear()
                        if self.bad: return

    def judge(self, env, d, n, ex, base, over, jit, slack, what):
        if len(ex) != n:
            self.bad.append(("count", f"{what}: {len(ex)} executions"))
            return
        s = env.instant(d.snapshot())
        live = {x.key: x for x in list(s.future) + list(s.running)}
        if len(live) != n or s.total_tasks != n: self.bad.append(("scheduled", f"{what}: {len(live)} tasks are scheduled"))
        for i, (e, want) in enumerate(zip(ex, ideal(n, base, over))):
            w = e.when.timestamp()
            if not max(base, want - jit) - slack <= w <= want + jit + slack:
                self.bad.append(("time", f"{what}: entry {i} is scheduled {w - base} s after the start, expected {want - base} +- {jit}"))
            if not jit and not base - slack <= w <= base + over + slack: self.bad.append(("window", f"{what}: entry {i} is outside the window"))
            if (e.args, dict(e.kwargs), e.function.__name__) != ((i,), {"tag": i}, "fg"[i % 2]) or (i % 3 and e.key != f"k{i}"):
                self.bad.append(("entry", f"{what}: entry {i} became {e.key} {e.function.__name__} {e.args} {e.kwargs}"))
            x = live.get(e.key)
            if x is None or abs(x.when.timestamp() - w) > 0.001 and x.when.timestamp() > base + 0.01 or x.args != (i,) or x.function.__name__ != "fg"[i % 2]:
                self.bad.append(("recorded", f"{what}: entry {i} is recorded as {x and (x.function.__name__, x.args, x.when)}, its execution says {e.when}"))


class Entries(Base):
    """Agendas of every kind of entries: functions, names, functions and names not registered; keys: none, fresh, repeated, in use."""
    first = 0
    kinds_ = ("f", "name", "new", "unknown")
    keys_ = (None, "k", "used")

    async def main(self, env):
        self.bad, self.n = [], 0
        opts = list(itertools.product(self.kinds_, self.keys_))
        rests = [r for n in (0, 1, 2) for r in itertools.product(opts, repeat=n)]
        for j, rest in enumerate(rests):
            ent = (opts[self.first],) + rest
            self.docket_name = f"d{j}"
            async with self.client(env) as d:
                async def new(*a, **k): env.ev("start", "new", a, tuple(sorted(k.items())))
                await d.add(d.fns["g"], key="used", when=utc() + S(500))("old")
                a = Agenda()
                for i, (kind, key) in enumerate(ent):
                    a.add({"f": d.fns["f"], "name": "g", "new": new, "unknown": "nobody"}[kind], key=key)(i)
                self.n += 1
                err = None
                before = list(a)
                try: ex = await a.scatter(d, over=S(10))
                except Exception as e: err = e
                s = env.instant(d.snapshot())
                live = {x.key: x for x in list(s.future) + list(s.running)}
                what = f"entries {ent}"
                if any(k == "unknown" for k, _ in ent):
                    if not isinstance(err, KeyError): self.bad.append(("unknown", f"{what}: {err!r} instead of KeyError"))
                    if len(live) != 1: self.bad.append(("half", f"{what}: scheduled {sorted(live)} although the scatter was refused"))
                    continue
                if err is not None:
                    self.bad.append(("error", f"{what}: raised {err!r}"))
                    continue
                if len(a) != len(ent) or list(a) != before: self.bad.append(("changed", f"{what}: scattering changed the agenda"))
                expect, taken = {}, {"used"}
                for i, (e, (kind, key)) in enumerate(zip(ex, ent)):
                    if key is not None and e.key != key: self.bad.append(("key", f"{what}: entry {i} got the key {e.key}"))
                    want = "ALREADY_SCHEDULED" if key in taken else "SCHEDULED"
                    if e.disposition.name != want: self.bad.append(("disposition", f"{what}: entry {i} is {e.disposition.name}, expected {want}"))
                    if key not in taken: expect[e.key] = ({"f": "f", "name": "g", "new": "new"}[kind], (i,))
                    if key: taken.add(key)
                expect["used"] = ("g", ("old",))
                got = {k: (x.function.__name__, x.args) for k, x in live.items()}
                if got != expect: self.bad.append(("scheduled", f"{what}: {got} are scheduled, expected {expect}"))
                if len(ex) != len(ent): self.bad.append(("count", f"{what}: {len(ex)} executions"))
                for bad in (S(0), S(-1)):
                    try:
                        await a.scatter(d, over=bad)
                        self.bad.append(("window", f"{what}: a window of {bad} was accepted"))
                    except ValueError: pass
                # a second scatter: keyed entries keep their first schedule, the others are new
                x2 = await a.scatter(d, over=S(50))
                for e, (kind, key), e1 in zip(x2, ent, ex):
                    if key is None and e.key == e1.key: self.bad.append(("key-reuse", f"{what}: both scatters used the generated key {e.key}"))
                    if (e.disposition.name == "ALREADY_SCHEDULED") != (key is not None): self.bad.append(("again", f"{what}: scattering again, {key} is {e.disposition.name}"))
                a.clear()
                if len(a) or await a.scatter(d, over=S(5)) != []: self.bad.append(("clear", f"{what}: a cleared agenda is not empty"))
                await d.clear()
            if self.bad: return


class Runs(Base):
    """Scattered by two clients at the same time under the same keys, run by a worker."""
    poll = 0.25
    hold_limit = 1.0
    n_ = 4
    def counts(self, env): return 0, 0

    async def other(self, env):
        async with self.client(env) as d:
            await asyncio.sleep(max(0, 0.5 - env.t()))
            await self.go(env, d, "b")

    async def go(self, env, d, who):
        a = Agenda()
        for i in range(self.n_): a.add("fg"[i % 2], key=f"k{i}" if i != 3 else None)(who, i)
        env.ev("base", who)
        ex = await a.scatter(d, over=S(3))
        for i, e in enumerate(ex): env.ev("sched", who, i, e.key, e.disposition.name, e.when.timestamp() - sim.BASE / 1e9)
        env.ev("done", who)

    async def main(self, env):
        async with self.client(env) as d:
            self.start_worker(env, "w1")
            env.spawn("b", self.other(env))
            await asyncio.sleep(0.5)
            env.explore = True
            await self.go(env, d, "a")
            await asyncio.sleep(1.0)
            env.explore = False
            await asyncio.sleep(5)

    def check(self, env):
        out = []
        sch = evs(env, "sched")
        if len(evs(env, "done")) != 2: return [("stuck", f"a scatter never ended: {env.status}")]
        base = {e[3]: e[0] for e in evs(env, "base")}
        ran = [(e[3], e[4]) for e in evs(env, "start")]
        for who in "ab":
            for e in [e for e in sch if e[3] == who]:
                i, key, res, when = e[4:8]
                lim = base[who] + i * 1.0
                if abs(when - lim) > 0.2 + self.hold_limit * env.nheld: out.append(("time", f"{who}'s entry {i} is due {when}, expected {lim}"))
                n = ran.count(("fg"[i % 2], (who, i)))
                if n != (res == "SCHEDULED"): out.append(("runs", f"{who}'s entry {i} ({res}) ran {n} times"))
                st = [x[0] for x in evs(env, "start") if (x[3], x[4]) == ("fg"[i % 2], (who, i))]
                if st and not when - 0.001 <= st[0] <= when + 0.6 + self.hold_limit * env.nheld: out.append(("start", f"{who}'s entry {i} due {when} started at {st[0]}"))
        for i in (1, 2):       # (entry 0 is due, and may be over, at once)
            if [e[6] for e in sch if e[4] == i].count("SCHEDULED") != 1: out.append(("dedup", f"entry {i} of both agendas: {[e[6] for e in sch if e[4] == i]}"))
        return out


def work(tier):
    deep = tier == "thorough"
    return [(Times(name=f"times-{n}", size=n), Bounds(depth=0)) for n in ((1, 2, 3, 4, 5, 6) if not deep else (1, 2, 3, 4, 5, 6, 7, 8))] + \
           [(Entries(name=f"entries-{i}", first=i), Bounds(depth=0)) for i in range(12)] + \
           [(Runs(name="runs", max_ops=200000), Bounds(1 if not deep else 2, m=3, hold=1))]
