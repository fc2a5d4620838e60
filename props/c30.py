"""C30: worker listings show exactly the workers that are alive."""
import itertools
from mc.world import *
from mc.explore import Bounds

RULE = ("every placement of a worker's stop, death and comeback (with the same or other tasks) on a grid of heartbeat phases beside another worker, for two and three allowed missed heartbeats, "
        "all listings being read throughout or only now and then; every hold of, crash at and stall of every operation of the workers")
BEAT = 1.0
ALL = ("a", "b", "c")


class Listing(World):
    """plan: (time, "start"|"stop"|"kill"|"register", worker, offered tasks)."""
    poll = 0.5
    hold_limit = 0.9
    redelivery = 5.0
    heartbeat = BEAT
    missed = 3
    plan = ()
    reads = "all"           # or times at which they are read
    end = 8.0
    busy = False
    victims = ()
    explore_for = 3.0
    stops = ()
    resets = World.resets

    def docket(self, env, **kw): return super().docket(env, missed_heartbeats=self.missed, **kw)

    def allow_crash(self, op, env): return op.proc in self.victims

    def allow_hold(self, op, env): return op.proc[0] == "w"

    def injections(self): return self.stops

    async def inject(self, env, which): self.act(env, "stop", which, None)

    def names(self): return sorted({w for _, _, w, _ in self.plan})

    async def one(self, env, name, offers):
        proc = sim.PROC.get()
        me = env.data.up[name] = {"proc": proc, "offers": set(offers), "t": env.t()}
        async with self.docket(env) as d:
            me["d"] = d
            for o in offers: d.register(self.fn(env, o), names=[o])
            async with self.worker(d, name) as w:
                me["run"] = asyncio.get_running_loop().create_task(w.run_forever())
                env.ev("up", name, tuple(sorted(offers)))
                await asyncio.gather(me["run"], return_exceptions=True)
                r = me["run"]
                if not r.cancelled() and r.exception(): env.ev("worker-died", name, repr(r.exception()))
        env.ev("down", name)
        self.look(env)
        await asyncio.sleep(1e6)

    def fn(self, env, o):
        async def f(secs: float = 0):
            async with body(env, o): await asyncio.sleep(secs)
        return f

    def act(self, env, what, w, offers):
        up = env.data.up
        if what == "start":
            n = env.data.starts = env.data.__dict__.get("starts", 0) + 1
            env.spawn(f"{w}#{n}", self.one(env, w, offers))
        elif what == "stop":
            if w not in up or "run" not in up[w] or up[w]["run"].done() or up[w].get("stopping"): return
            up[w]["stopping"] = True
            env.ev("stop", w)
            up[w]["run"].cancel()
        elif what == "kill":
            env.crash(up[w]["proc"])
        elif what == "register":
            for o in offers: up[w]["d"].register(self.fn(env, o), names=[o])
            env.ev("offers", w, tuple(offers))

    def look(self, env):
        d = env.data.d
        ws = env.instant(d.workers())
        per = {o: env.instant(d.task_workers(o)) for o in ALL}
        snap = env.instant(d.snapshot())
        got = (tuple(sorted((x.name, tuple(sorted(x.tasks & set(ALL)))) for x in ws)),
               tuple((o, tuple(sorted(x.name for x in per[o]))) for o in ALL),
               tuple(sorted((x.name, tuple(sorted(x.tasks & set(ALL)))) for x in snap.workers)),
               tuple(sorted({(x.name, tuple(sorted(x.tasks & set(ALL)))) for v in per.values() for x in v})))
        env.ev("listed", *got, {x.name: round(env.now() - x.last_seen.timestamp(), 4) for x in ws})

    async def main(self, env):
        env.data.up = {}
        async with self.docket(env) as d:
            env.data.d = d
            for o in ALL: d.register(self.fn(env, o), names=[o])
            t0 = env.t()
            if self.busy:
                for n in range(2): await d.add(ALL[0], key=f"k{n}")(3.0)
            if self.reads == "all":
                env.step_hooks.append(lambda op: any(w for _, _, w in op.acc) and not env.instant_mode and self.look(env))
                env.spawn("sampler", self.sample(env))
            env.explore = True
            ts = sorted({t for t, *_ in self.plan} | (set(self.reads) if self.reads != "all" else set()) | {self.explore_for, self.end})
            for t in ts:
                await asyncio.sleep(max(0, t0 + t - env.t()))
                if t == self.explore_for: env.explore = False
                for x in self.plan:
                    if x[0] == t: self.act(env, *x[1:])
                if self.reads != "all" and t in self.reads: self.look(env)
            self.look(env)
            return True

    async def sample(self, env):
        while env.t() < self.end:
            await asyncio.sleep(0.05)
            self.look(env)

    def stalled(self, env): return max([x.get("s", env.hold_limit) for v in env.devs.values() for x in v if x["k"] in ("hold", "stall")] + [0.0])

    def check(self, env):
        out = []
        eps = 0.02
        age = BEAT * self.missed
        slack = self.stalled(env)
        state = {}              # name -> dict(up=, offers=, since=, stop=, gone=)
        line = [(round(e[0], 3), *e[2:]) for e in env.events if e[2] != "listed"]
        crashed = {e[0]: e[1] for e in evs(env, "crash")}
        for e in env.events:
            t, proc, what = e[0], e[1], e[2]
            if what == "up": state[e[3]] = dict(up=t, offers=set(e[4]), was=state.get(e[3]), proc=proc)
            elif what == "offers":
                state[e[3]].update(more=set(e[4]), at=t)
            elif what == "stop": state[e[3]]["stop"] = t
            elif what == "down": state[e[3]]["gone"] = t
            elif what == "worker-died": out.append(("worker-died", f"{line}"))
            elif what == "crash":
                for s in state.values():
                    if s["proc"] == proc: s["dead"] = t
            elif what == "listed":
                ws, per, snap, per2, ages = e[3:]
                names = [n for n, _ in ws]
                if len(set(names)) != len(names): out.append(("twice", f"at {t}: {ws}"))
                if snap != ws: out.append(("snapshot", f"at {t}: the snapshot lists {snap}, workers() {ws}: {line}"))
                listed = dict(ws)
                for n in names:
                    if n not in state: out.append(("unknown", f"at {t}: {n} is listed: {line}"))
                for n, s in state.items():
                    tasks = listed.get(n)
                    each = [o for o, v in per if n in v]
                    has = [x for x in per2 if x[0] == n]
                    alive = "stop" not in s and "dead" not in s
                    known = alive and t >= s["up"] + BEAT + slack + eps
                    if alive and known and tasks is None: out.append(("missing", f"at {t}: {n} is up and not listed: {line}"))
                    # what it offered last time may be listed until it has sent a heartbeat
                    if known and tasks is not None:
                        may = s["offers"] | s.get("more", set())
                        must = s["offers"] | (s["more"] if "more" in s and t >= s["at"] + BEAT + slack + eps else set())
                        if not must <= set(tasks) <= may: out.append(("offers", f"at {t}: {n} offers {sorted(must)} and is listed with {tasks}: {line}"))
                        was = s["was"]
                        stale = was and t < was.get("dead", -99) + age + slack + eps
                        if not must <= set(each) or (not set(each) <= may and not stale):
                            out.append(("per-task", f"at {t}: {n} offers {sorted(must)} and is listed for {each}: {line}"))
                        if any(x[1] != tasks for x in has): out.append(("agree", f"at {t}: {n} is listed with {tasks} and {has}: {line}"))
                        if ages[n] > BEAT + slack + eps or ages[n] < -eps: out.append(("last-seen", f"at {t}: {n} was last seen {ages[n]} s ago: {line}"))
                    if "gone" in s and (not slack or t > s["stop"] + age + slack + eps):
                        if tasks is not None or each: out.append(("stopped", f"at {t}: {n} has stopped and is listed with {tasks}, for {each}: {line}"))
                    if "dead" in s:
                        if t > s["dead"] + age + slack + eps and (tasks is not None or each):
                            out.append(("dead", f"at {t}: {n} has died and is listed with {tasks}, for {each}: {line}"))
                        if "stop" not in s and s["dead"] > s["up"] + BEAT + slack + eps and t < s["dead"] + age - BEAT - slack - eps:
                            want = s["offers"]
                            if tasks is None or not want <= set(tasks) or not want <= set(each):
                                out.append(("early", f"at {t}: {n} has missed fewer heartbeats than allowed and is listed with {tasks}, for {each}: {line}"))
        return out

    def covered(self, env): return {self.name.split("-")[0]}


class Rough(Listing):
    """The connection is lost now and then; once it's back, everything is as it should be."""
    def allow_err(self, op, env): return op.proc[0] == "w"

    def check(self, env):
        out = []
        last = evs(env, "listed")[-1]
        line = [(round(e[0], 3), *e[2:]) for e in env.events if e[2] != "listed"]
        want = tuple((n, ("a", "b")) for n in self.names())
        if last[3] != want: out.append(("rough", f"finally {last[3]} are listed, expected {want}: {line}"))
        if last[4] != (("a", tuple(self.names())), ("b", tuple(self.names())), ("c", ())): out.append(("rough", f"finally {last[4]}: {line}"))
        return out


def work(tier):
    deep = tier == "thorough"
    out = []
    w2 = (0.3, "start", "w2", ("b", "c"))
    step = 0.25 if deep else 0.5
    grid = lambda a, b: [round(a + step * i + 0.07, 3) for i in range(int((b - a) / step) + 1)]
    for missed in (2, 3):
        for how in ("stop", "kill"):
            for t in grid(0.0, 2.0):
                base = ((0.0, "start", "w1", ("a", "b")), w2, (t, how, "w1", None))
                for reads in ("all", tuple(x / 2 + 0.13 for x in range(1, 20, 3)), (6.5,)):
                    out.append((Listing(name=f"{how}-{missed}-{t}-{reads if reads == 'all' else len(reads)}", missed=missed, plan=base, reads=reads), Bounds(0)))
                for gap in (0.3, 1.2) if not deep else (0.1, 0.3, 0.7, 1.2, 1.9, 2.6, 4.0):
                    for offers in (("a", "b"), ("b", "c"), ("c",)):
                        out.append((Listing(name=f"back-{how}-{missed}-{t}-{gap}-{'.'.join(offers)}", missed=missed, plan=base + ((round(t + gap, 3), "start", "w1", offers),)), Bounds(0)))
        for t in grid(0.0, 2.0):
            out.append((Listing(name=f"register-{missed}-{t}", missed=missed, plan=((0.0, "start", "w1", ("a",)), w2, (max(t, 0.2), "register", "w1", ("c",)))), Bounds(0)))
            out.append((Listing(name=f"busy-{missed}-{t}", missed=missed, busy=True, plan=((0.0, "start", "w1", ("a", "b")), w2, (t, "stop", "w1", None))), Bounds(0)))
    two = ((0.0, "start", "w1", ("a", "b")), (0.3, "start", "w2", ("b", "c")))
    d = 1 if not deep else 2
    for missed in (2, 3):
        out.append((Listing(name=f"holds-{missed}", missed=missed, plan=two, end=7.0), Bounds(d, m=2, hold=d)))
        out.append((Listing(name=f"stalls-{missed}", missed=missed, plan=two, end=7.0), Bounds(1, stall=1, stalls=(0.4, (missed - 1) * BEAT - 0.15))))
        out.append((Listing(name=f"crash-{missed}", missed=missed, plan=two, victims=("w1#1", "w2#2"), end=9.0), Bounds(d, m=1, crash=d)))
        out.append((Listing(name=f"stopping-{missed}", missed=missed, plan=two, stops=("w1", "w2"), end=9.0), Bounds(d, m=1, inject=d, **({"hold": 1} if deep else {}))))
        out.append((Rough(name=f"rough-{missed}", missed=missed, plan=tuple((t, k, w, ("a", "b")) for t, k, w, _ in two), end=11.0, reads=()), Bounds(d, err=d)))
    return out
