"""C02: exactly once, failure-free."""
from mc.world import *
from mc.explore import Bounds
from props import keyseq

RULE = ("schedules: every operation of the window is held back past the 1st..m-th later operation of another task that touches "
        "the same data; states are distinct histories (per-key access order, per-process order, observed events)")


class Exactly(World):
    """Two clients submit tasks while `workers` workers run; every key must run exactly once."""
    hold_limit = 2.5
    T = 8.0

    def tasks(self, env):
        async def job(name: str, secs: float):
            async with body(env, name):
                await asyncio.sleep(secs)
            return name
        return {"job": job}

    async def client_main(self, env, items):
        async with self.client(env) as d:
            await asyncio.sleep(max(0, 0.5 - env.t()))
            for key, delay, secs in items:
                when = utc() + S(delay) if delay else None
                e = await d.add(d.fns["job"], key=key, when=when)(key, secs)
                env.ev("added", key, e.disposition.name)

    async def main(self, env):
        async with self.client(env) as d:
            for n in range(self.workers): self.start_worker(env, f"w{n + 1}")
            cs = [env.spawn(f"c{i + 1}", self.client_main(env, items)) for i, items in enumerate(self.plan)]
            await asyncio.sleep(0.4)
            env.explore = True
            await asyncio.sleep(self.T - 1.5)
            env.explore = False
            await asyncio.sleep(self.settle)
            st = {}
            for items in self.plan:
                for key, _, _ in items:
                    e = await d.get_execution(key)
                    st[key] = e.state.value if e else None
            return st

    settle = 6.0

    def check(self, env):
        out = []
        for key in sorted({k for items in self.plan for k, _, _ in items}):
            n, f = len(starts(env, key)), len([e for e in finishes(env, key) if e[5] is None])
            acc = len([e for e in evs(env, "added") if e[3] == key and e[4] == "SCHEDULED"])
            if n != acc or f != acc or not acc:
                out.append((f"runs-{n}-{f}-of-{acc}", f"task {key!r} was accepted {acc} times, started {n} and finished {f} times"))
            elif env.value[key] != "completed": out.append((f"state-{env.value[key]}", f"task {key!r} ended in {env.value[key]}"))
        return out

    def covered(self, env): return [e[1] for e in starts(env)]


def work(tier):
    deep = tier == "thorough"
    w = []
    h2 = Bounds(2 if not deep else 3, m=4, hold=3)
    h1 = Bounds(2, m=4 if not deep else 8, hold=2)
    w.append((Exactly(name="immediate+future", workers=2, plan=[[("a", 0, 0.2), ("b", 1, 0.2)]], T=4.0), h2))
    w.append((Exactly(name="two-clients-one-key", workers=2, plan=[[("a", 0, 0.2)], [("a", 0, 0.2)]], T=3.0), h2))
    w.append((Exactly(name="three-workers", workers=3, plan=[[("a", 0, 0.2), ("b", 0, 0.2)], [("c", 0.7, 0.2)]], T=4.0), h1))
    w.append((Exactly(name="small-concurrency", workers=2, concurrency=1, plan=[[("a", 0, 1.5), ("b", 0, 0.2), ("c", 0, 0.2)]]), h1))
    # running far beyond the redelivery timeout; replies may lag, but by less than the margin between lease renewals
    w.append((Exactly(name="long-vs-redelivery", workers=2, redelivery=2.0, hold_limit=0.9, T=9.0,
                      plan=[[("a", 0, 6.0), ("b", 0, 3.0)]]), h1))
    w.append((Exactly(name="long-full-slots", workers=2, redelivery=2.0, hold_limit=0.9, T=11.0, concurrency=1,
                      plan=[[("a", 0, 5.0), ("b", 0, 5.0), ("c", 0, 0.1)]]), h1))
    for c in (12, 30):
        w.append((Exactly(name=f"many-long-{c}", workers=2, concurrency=c, redelivery=2.0, T=8.0, plan=[[(f"t{n}", 0, 5.0 + n % 3) for n in range(c)]], settle=12.0), Bounds(depth=0)))
    return w + keyseq.family(("C02",), tier, "idle|live")
