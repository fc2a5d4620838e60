"""Arrival patterns at an admission control (cooldown, rate limit, debounce): many independent cases in one run.

A case is a limit of its own (its own parameter value or its own function) and a list of submissions (time, outcome, seconds, where).  Submissions that
share an instant are added back to back; what: 'now' adds immediately at that instant, 'due' schedules for that instant beforehand.
"""
import itertools
from typing import Annotated
from docket.execution import ExecutionCancelled
from mc.world import *
from mc.explore import Bounds

LAT = 0.12              # how late a due task may start
EPS = 0.004             # clocks are compared in milliseconds


class Arrivals(World):
    poll = 0.05
    redelivery = 60.0
    concurrency = 5000
    workers = 1
    ttl = 900.0
    max_ops = 10 ** 7
    max_time = 1e9
    warm_runs = 1
    form = "param"          # param: one function, a value per case; task: a function per case; positional / default: ways to pass the value
    how = "now"
    span = None
    part = (0, 1)
    secs = 0.0
    window = 1.0
    same_key = False        # every submission of a case has its key (each has ended when the next comes)
    lead = 3.0              # when the patterns begin

    def control(self): raise NotImplementedError
    def patterns(self): raise NotImplementedError

    def cases(self): return self.patterns()[self.part[0]::self.part[1]]

    def tasks(self, env):
        async def go(case, i, secs):
            async with body(env, case, i):
                if secs: await asyncio.sleep(secs)
                if i % 3 == 2: raise ValueError()
            return i
        c = self.control()
        if self.form in ("param", "positional"):
            async def one(case: Annotated[str, c], i: int, secs: float): await go(case, i, secs)
            return {"one": one}
        if self.form == "default":
            def make(n):
                async def one(i: int, secs: float, case: Annotated[str, c] = f"c{n}"): await go(case, i, secs)
                one.__name__ = one.__qualname__ = f"f{n}"
                return one
            return {f"f{n}": make(n) for n in range(len(self.cases()))}
        fns = {}

        def make(n):
            async def fn(i: int, secs: float, lim: object = self.control()): await go(f"c{n}", i, secs)
            fn.__name__ = fn.__qualname__ = f"f{n}"
            return fn
        return {f"f{n}": make(n) for n in range(len(self.cases()))}

    def call(self, d, n, i, secs, **kw):
        k = dict(key=f"c{n}" if self.same_key else f"c{n}.{i}", **kw)
        if self.form == "param": return d.add(d.fns["one"], **k)(case=f"c{n}", i=i, secs=secs)
        if self.form == "positional": return d.add(d.fns["one"], **k)(f"c{n}", i, secs)
        if self.form == "default" and i % 2: return d.add(d.fns[f"f{n}"], **k)(i, secs, case=f"c{n}")
        return d.add(d.fns[f"f{n}"], **k)(i, secs)

    async def main(self, env):
        cases = self.cases()
        async with self.client(env) as d:
            for n in range(self.workers): self.start_worker(env, f"w{n}")
            await asyncio.sleep(0.3)
            t0 = utc()
            events = sorted((t, n, i) for n, p in enumerate(cases) for i, t in enumerate(p))
            if self.how == "due":
                for t, n, i in events: await self.call(d, n, i, self.secs, when=t0 + S(self.lead + t))
            else:
                for t, n, i in events:
                    left = (t0 + S(self.lead + t) - utc()).total_seconds()
                    if left > 0: await asyncio.sleep(left)
                    await self.call(d, n, i, self.secs)
            env.data.t0 = env.t() - (utc() - t0).total_seconds() + self.lead
            await asyncio.sleep(max(p[-1] for p in cases) + self.tail + self.lead)
            out = {}
            for t, n, i in events:
                e = await d.get_execution(f"c{n}" if self.same_key else f"c{n}.{i}")
                out[n, i] = e.state.value if e else None
            return out

    tail = 6.0

    def check(self, env):
        seen, out = set(), []
        got, running = {}, {}
        for e in starts(env): got.setdefault(e[3], []).append((e[0] - env.data.t0, e[5]))
        for n, p in enumerate(self.cases()):
            r = sorted(got.get(f"c{n}", []))
            states = [env.value[n, i] for i in range(len(p))]
            what = f"submissions at {[round(t, 2) for t in p]} ({self.how}, {self.form}, taking {self.secs} s, {self.workers} workers)"
            for i in range(len(p)) if not self.same_key else [len(p) - 1]:
                k = [x for x in r if x[1] == i]
                if len(k) > 1: out.append(("twice", f"{what}: submission {i} ran {len(k)} times"))
                final = "failed" if i % 3 == 2 else "completed"
                if k and states[i] != final: out.append((f"record-{states[i]}", f"{what}: submission {i} ran, its record reads {states[i]}"))
                if not k and states[i] != "cancelled": out.append((f"dropped-{states[i]}", f"{what}: submission {i} never ran, its record reads {states[i]}"))
            for key, text in self.judge(p, r): out.append((key, f"{what}: {text}; runs {[(round(t, 3), i) for t, i in r]}"))
        return [x for x in out if not (x[0] in seen or seen.add(x[0]))]

    def counts(self, env): return len(self.cases()), sum(map(len, self.cases()))


def gaps(choices, n):
    """All patterns of up to n submissions with the given gaps."""
    out = []
    for k in range(n):
        for g in itertools.product(choices, repeat=k): out.append(tuple(itertools.accumulate((0.0,) + g)))
    return out
