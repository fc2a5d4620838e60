"""C01: at-least-once under worker crashes."""
from docket import Retry
from mc.world import *
from mc.explore import Bounds

RULE = ("crash points: a worker process dies before, or right after, every one of its Redis operations in the window (optionally "
        "two deaths, or a death plus one reordered operation); states are distinct histories")


class Crashes(World):
    redelivery = 3.0
    poll = 0.5
    hold_limit = 1.5
    victims = ("w1",)
    settle = 11.0
    T = 3.5
    slots = 10
    rescue = False
    load = 0
    busy = 0.9

    def tasks(self, env):
        async def job(name: str, secs: float):
            async with body(env, name):
                await asyncio.sleep(secs)

        async def flaky(name: str, secs: float, retry: Retry = Retry(attempts=3, delay=S(0.3))):
            async with body(env, name):
                await asyncio.sleep(secs)
                if retry.attempt == 1: raise ValueError("first attempt")
        return {"job": job, "flaky": flaky}

    until = None

    def allow_crash(self, op, env): return op.proc in self.victims and (self.until is None or op.t / 1e9 < self.until)

    async def main(self, env):
        async with self.client(env) as d:
            self.start_worker(env, "w1", concurrency=self.slots)
            await asyncio.sleep(0.2)
            for n in range(1, self.workers): self.start_worker(env, f"w{n + 1}", concurrency=self.slots)
            await asyncio.sleep(0.3)
            env.explore = True
            for key, fn, delay, secs in self.plan:
                e = await d.add(d.fns[fn], key=key, when=utc() + S(delay) if delay else None)(key, secs)
                env.ev("added", key, e.disposition.name)
            for n in range(int(self.load * self.T)):            # keep the survivors busy throughout
                await asyncio.sleep(1 / self.load)
                await d.add(d.fns["job"])(f"load{n}", self.busy)
            await asyncio.sleep(self.T if not self.load else 0)
            env.explore = False
            if self.rescue: self.start_worker(env, "rescue")
            await asyncio.sleep(self.settle)
            out = {}
            for key, *_ in self.plan:
                e = await d.get_execution(key)
                out[key] = e.state.value if e else None
            return out

    def check(self, env):
        out = []
        crash = [e for e in env.events if e[2] == "crash"]
        dead = {}
        for t, p, *_ in crash: dead[p] = t
        for key, fn, delay, secs in self.plan:
            done = [e for e in finishes(env, key) if e[5] is None]
            if not done: out.append((f"lost-{fn}", f"task {key!r} was accepted but never ran to completion; workers died: {dead}"))
            elif env.value[key] != "completed":
                out.append((f"state-{fn}-{env.value[key]}", f"task {key!r} ran to completion but its record reads {env.value[key]}"))
            # redelivery is prompt: a run interrupted by a death is started again within the redelivery timeout
            for s in starts(env, key):
                if s[1] in dead and not [f for f in finishes(env, key) if f[4] == s[4]]:
                    later = [x for x in starts(env, key) if x[0] > dead[s[1]]]
                    lim = max(dead.values()) + self.redelivery + 2 * self.poll + 1.0 + (self.hold_limit if env.ndev > 1 else 0)
                    if not [f for f in done if f[0] <= dead[s[1]]] and (not later or later[0][0] > lim):
                        out.append((f"late-{fn}", f"task {key!r} interrupted by a death at {dead[s[1]]} was not restarted by {lim}"))
        return out

    def covered(self, env):
        dead = {e[1]: e[0] for e in env.events if e[2] == "crash"}
        r = []
        if dead:
            for key, *_ in self.plan:
                for s in starts(env, key):
                    if s[1] in dead:
                        f = [f for f in finishes(env, key) if f[4] == s[4]]
                        r.append("died-mid-run" if not f else "died-after-run")
        return set(r)


def work(tier):
    deep = tier == "thorough"
    plan = [("a", "job", 0, 0.2), ("b", "job", 0, 1.2), ("c", "job", 1.0, 0.3)]
    w = [
        (Crashes(name="one-death", workers=2, plan=plan), Bounds(2, m=2 if not deep else 4, crash=1, hold=1)),
        (Crashes(name="retry-death", workers=2, plan=[("f", "flaky", 0, 0.3), ("a", "job", 0.6, 0.2)]),
         Bounds(2 if deep else 1, m=3, crash=1, hold=1)),
        (Crashes(name="two-deaths", workers=3, victims=("w1", "w2"), settle=15.0, plan=[("a", "job", 0, 0.7), ("c", "job", 0.8, 0.3)]),
         Bounds(2, m=1, crash=2)),
        (Crashes(name="full-slots", workers=2, slots=1, settle=14.0, plan=[("a", "job", 0, 0.7), ("b", "job", 0, 0.7), ("c", "job", 0, 0.2)]),
         Bounds(1 if not deep else 2, m=2, crash=1, hold=1)),
        (Crashes(name="lone-then-restart", workers=2, victims=("w1", "w2"), settle=15.0,
                 plan=[("a", "job", 0, 1.0), ("f", "flaky", 0, 0.2)], rescue=True), Bounds(2, m=1, crash=2)),
    ]
    for slots, busy in ((10, 0.9), (2, 0.8)):
        w.append((Crashes(name=f"busy-survivor-{slots}", workers=2, slots=slots, plan=[("a", "job", 0, 0.7), ("c", "job", 0.4, 0.3)], T=9.0, load=2, busy=busy, settle=3.0, until=2.0),
                  Bounds(1, m=0, crash=1)))
    if deep: w.append((Crashes(name="three-deviations", workers=2, plan=plan[:2]), Bounds(3, m=2, crash=1, hold=2)))
    return w
