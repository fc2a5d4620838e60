"""C12: automatic perpetual and cron tasks are seeded once and kept alive."""
from datetime import timezone
from docket import Perpetual, Cron
from docket.dependencies import Depends
from mc.world import *
from mc.explore import Bounds

RULE = ("up to three workers starting at once with all placements of holds, reversals and deaths; a worker joining at every operation of a live chain; "
        "chains lost at every operation (cancelled, taken by a worker that does not know the task, struck and restored); minutes of healthy running")
LAT = 0.2
RESEED = 75.0           # the seeding interval, a stale lock and some polling


class Auto(World):
    auto = True
    poll = 0.5
    redelivery = 4.0
    hold_limit = 0.6
    workers = 2
    slots = 10
    every = 0.9
    secs = 0.2
    window = 2.0
    settle = 4.0
    functions = ("tick",)
    cron = "* * * * *"
    victims = ()
    rescue = False
    lose = None
    ignorant = False
    joins = ()
    strike = None
    upgrade = None          # the functions the first worker offers; it is then stopped and another offers all of them

    def tasks(self, env):
        w = self

        async def tick(p: Perpetual = Perpetual(every=S(w.every), automatic=True)):
            async with body(env, "tick"):
                await asyncio.sleep(w.secs)

        async def other(p: Perpetual = Perpetual(every=S(w.every * 1.5), automatic=True)):
            async with body(env, "other"):
                await asyncio.sleep(w.secs)
                if env.data.bodies[0] % 2: raise ValueError("sometimes")

        async def clock(c: Cron = Cron(w.cron, automatic=True)):
            async with body(env, "clock"): pass

        async def manual(p: Perpetual = Perpetual(every=S(0.3))):
            async with body(env, "manual"): pass
        fns = dict(tick=tick, other=other, clock=clock, manual=manual)
        known = self.upgrade if self.upgrade and PROC.get() == "w1" else self.functions
        return {k: fns[k] for k in (*known, "manual")}

    def allow_crash(self, op, env): return op.proc in self.victims
    def injections(self): return self.inj
    inj = ()
    inject_after_reads = True

    async def ignorant_worker(self, env, secs):
        """A worker that knows none of the tasks (an old version, say) and takes what it gets."""
        try:
            async with asyncio.timeout(secs):
                async with self.docket(env) as d:
                    async with self.worker(d, "old", concurrency=50, schedule_automatic_tasks=False) as w: await w.run_forever()
        except TimeoutError: pass

    async def inject(self, env, which):
        d = env.data.client
        if which == "join":
            env.ev("join")
            self.start_worker(env, f"w{5 + env.nops}")
        elif which == "cancel":
            env.ev("lost", "tick")
            await d.cancel("tick")
            env.ev("gone", "tick")

    async def main(self, env):
        async with self.client(env) as d:
            env.data.client = d
            if self.strike == "before":
                await d.strike("tick")
                await asyncio.sleep(0.3)
            env.explore = True
            env.data.up = env.t()
            up = [self.start_worker(env, f"w{n + 1}", concurrency=self.slots) for n in range(self.workers)]
            if self.upgrade:
                await asyncio.sleep(self.window)
                for t in up: t.cancel()
                await asyncio.gather(*up, return_exceptions=True)
                env.data.upgraded = env.t()
                self.start_worker(env, "w2", concurrency=self.slots)
            for i, at in enumerate(self.joins):
                await asyncio.sleep(at - env.t())
                self.start_worker(env, f"w{self.workers + 1 + i}", concurrency=self.slots)
            await asyncio.sleep(max(0, self.window - env.t()))
            env.explore = False
            if self.ignorant:
                env.ev("lost", "tick")
                await asyncio.sleep(0)
                t = env.spawn("old", self.ignorant_worker(env, 5.0))
                await asyncio.sleep(5.0)
                env.ev("gone", "tick")
            if self.strike:
                if self.strike == "during":
                    await d.strike("tick")
                    env.ev("struck")
                await asyncio.sleep(5)
                await d.restore("tick")
                env.ev("lost", "tick")
                env.ev("gone", "tick")
            if self.rescue:
                env.data.rescue = env.t()
                self.start_worker(env, "w9", concurrency=self.slots)
            await asyncio.sleep(self.settle)
            env.data.end = env.t()

    def runs(self, env, name):
        out = {}
        for e in env.events:
            if e[2] == "start" and e[3] == name: out[e[4]] = {"s": e[0], "e": None, "p": e[1], "died": False}
            elif e[2] == "finish" and e[3] == name and e[4] in out: out[e[4]]["e"] = e[0]
            elif e[2] == "crash":
                for r in out.values():
                    if r["p"] == e[1] and r["e"] is None: r.update(e=e[0], died=True)
        return list(out.values())

    def check(self, env):
        out = []
        dead = {e[1]: e[0] for e in evs(env, "crash")}
        lost = [e[0] for e in evs(env, "lost", "gone")]
        struck = [e[0] for e in evs(env, "struck")]
        slack = LAT + self.poll * 2 + 2.5 * self.hold_limit * env.nheld
        if [e for e in starts(env, "manual")]: out.append(("manual", "a task that is not automatic was started"))
        for name in self.functions:
            r = self.runs(env, name)
            what = f"{name}: {self.workers} workers from {env.data.up}" + (f", deaths {dead}" if dead else "") + (f", chain lost at {lost}" if lost else "") + f"; runs {[(x['s'], x['e']) for x in r]}"[:600]
            for a, b in zip(r, r[1:]):
                if a["e"] is None or b["s"] < a["e"]: out.append((f"two-{name}", f"two runs at once: {what}"))
            if name == "clock":
                inst = [t for t in range(60, int(env.data.end), 60)] if self.cron == "* * * * *" else [t for t in range(60, int(env.data.end)) if t % int(self.cron.split("/")[1].split()[0]) * 60 == 0]
                for t in inst:
                    n = len([x for x in r if t - 1e-3 <= x["s"] < t + 60])
                    gap = not dead and t > env.data.up + 1 and t + slack < env.data.end
                    if n > 1 or (n == 0 and gap): out.append((f"instant-{n}", f"{n} runs for the instant {t}: {what}"))
                    if n == 1 and gap and [x for x in r if t <= x["s"] < t + 60][0]["s"] > t + slack: out.append(("instant-late", what))
                continue
            every = self.every * (1.5 if name == "other" else 1.0)
            end = env.data.end
            # the chain begins
            begin = env.data.up if not (self.strike == "before") else None
            if self.upgrade and name not in self.upgrade: begin = env.data.upgraded
            if begin is not None:
                lim = begin + slack + (RESEED if dead or lost else 0)
                if not r and lim < end or r and r[0]["s"] > lim: out.append((f"unseeded-{name}", f"no run until {r[0]['s'] if r else 'the end'}: {what}"))
            prev = None
            for x in r + [None]:
                if prev is not None:
                    due = max(prev["e"] if prev["e"] is not None else 1e9, prev["s"] + every)
                    over = bool(struck) and prev["s"] < struck[0] or [t for t in lost if (prev["s"] <= t <= due + slack or x and prev["s"] <= t <= x["s"])]
                    last = due + slack
                    if dead: last += self.redelivery + 2 * self.poll + RESEED
                    if over: last = max([t for t in lost] + [due]) + slack + RESEED
                    if x is None:
                        if last < end: out.append((f"dead-{name}", f"after the run at {prev['s']} nothing was scheduled: {what}"))
                    elif x["s"] > last: out.append((f"gap-{name}", f"after the run at {prev['s']}, due again at {due:.3f}, the next was at {x['s']}: {what}"))
                    elif not over and not prev["died"] and not dead and x["s"] < due - 0.02: out.append((f"early-{name}", f"after the run at {prev['s']}, due again at {due:.3f}, the next was at {x['s']}: {what}"))
                prev = x
            if self.strike == "before":
                back = evs(env, "lost")[0][0]
                if r and r[0]["s"] < back: out.append(("struck-ran", what))
                if not r or r[0]["s"] > back + slack + RESEED: out.append((f"unseeded-{name}", f"restored at {back}: {what}"))
            if struck:
                back = evs(env, "lost")[0][0]
                for x in r:
                    if struck[0] + 1.0 < x["s"] < back: out.append(("struck-ran", what))
        return out

    def covered(self, env):
        out = set()
        if evs(env, "crash"): out.add("died")
        if evs(env, "join"): out.add("joined")
        if evs(env, "lost"):
            t = evs(env, "lost")[0][0]
            r = self.runs(env, "tick")
            a = [x for x in r if x["s"] <= t]
            b = [x for x in r if x["s"] > t]
            if a and b and b[0]["s"] > a[-1]["s"] + 10: out.add("lost-and-reseeded")
        return out


def work(tier):
    deep = tier == "thorough"
    out = []
    for w in (1, 2, 3):
        out.append((Auto(name=f"start-{w}", workers=w, window=1.3), Bounds(1 if w != 2 and not deep else 2, m=2, hold=2)))
        out.append((Auto(name=f"healthy-{w}", workers=w, functions=("tick", "other", "clock"), every=7.0, settle=400.0), Bounds(0)))
    for secs, every, ttl in ((0.2, 20.0, 5.0), (75.0, 80.0, 900.0), (75.0, 10.0, 5.0), (0.2, 130.0, 1.0), (0.2, 130.0, 0.0), (0.0, 61.0, 0.0)):
        out.append((Auto(name=f"healthy-{secs}-{every}-{ttl}", functions=("tick", "clock"), secs=secs, every=every, ttl=ttl, settle=500.0), Bounds(0)))
    out.append((Auto(name="start-two-tasks", functions=("tick", "other"), window=1.0), Bounds(1, m=2, hold=1)))
    out.append((Auto(name="start-death", victims=("w1",), window=1.6, settle=160.0), Bounds(1, m=0, crash=1)))
    out.append((Auto(name="start-both-die", victims=("w1", "w2"), window=1.0, settle=90.0, rescue=True), Bounds(2 if deep else 1, m=0, crash=2)))
    for had in (("tick",), ("other",), ("clock",), ("tick", "clock"), ("other", "clock")):
        for order in (("tick", "other", "clock"), ("other", "clock", "tick"), ("clock", "other", "tick")):
            out.append((Auto(name=f"upgrade-{'-'.join(had)}-{order[0]}", upgrade=had, functions=order, workers=1, every=3.0, window=4.1, settle=70.0), Bounds(0)))
    out.append((Auto(name="late-joiners", joins=(0.7, 1.1, 1.52, 2.0, 2.31, 3.3, 4.15), window=5.0, workers=1), Bounds(0)))
    out.append((Auto(name="join-anywhere", inj=("join",), window=1.9, workers=1, settle=5.0), Bounds(1, m=0, inject=1)))
    out.append((Auto(name="join-cron", inj=("join",), window=61.0, workers=1, settle=125.0, functions=("clock",), poll=4.0, late=58.5), Bounds(1, m=0, inject=1)))
    out.append((Auto(name="cancelled", inj=("cancel",), window=1.9, workers=1, settle=150.0), Bounds(1, m=0, inject=1)))
    out.append((Auto(name="ignorant", ignorant=True, settle=150.0), Bounds(0)))
    out.append((Auto(name="ignorant-1", ignorant=True, workers=1, settle=150.0), Bounds(0)))
    out.append((Auto(name="struck", strike="before", settle=150.0), Bounds(0)))
    out.append((Auto(name="struck-during", strike="during", settle=150.0), Bounds(0)))
    return out
