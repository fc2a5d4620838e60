"""C24: a stopping worker finishes its tasks and starts no more."""
from docket import Retry, ConcurrencyLimit
from mc.world import *
from mc.explore import Bounds

RULE = ("a stop (cancelling the worker's run, or leaving its context) at every operation of a worker processing a workload larger than its concurrency, from its start "
        "to its end, with a second worker, combined with placements of holds, lost connections and cancellations of running tasks; and the number of bodies of each "
        "worker running at a time in every one of those histories")


class Stop(World):
    poll = 0.2
    redelivery = 2.0
    concurrency = 2
    heartbeat = 1.0
    hold_limit = 0.45
    window = 1.4
    settle = 9.0
    plan = ()               # (at, key, fn, delay, secs)
    stops = ("cancel", "exit")
    stop_at = None          # (time, kind): a fixed stop; deviations then go elsewhere
    cancels = ()            # (at, key)
    second = 0.0            # when the other worker starts
    outage = False

    def tasks(self, env):
        async def job(name: str, secs: float):
            async with body(env, name): await asyncio.sleep(secs)
            return name

        async def flaky(name: str, secs: float, retry: Retry = Retry(attempts=2, delay=S(0.3))):
            async with body(env, name):
                await asyncio.sleep(secs)
                if retry.attempt < 2: raise ValueError("again")

        async def limited(name: str, secs: float, c: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=1)):
            async with body(env, name): await asyncio.sleep(secs)
        return {"job": job, "flaky": flaky, "limited": limited}

    async def stoppable(self, env, name):
        env.data.leave = asyncio.Event()
        env.data.run = None
        async with self.client(env) as d:
            async with self.worker(d, name) as w:
                env.ev("up", name)
                env.data.run = asyncio.get_running_loop().create_task(w.run_forever())
                leave = asyncio.get_running_loop().create_task(env.data.leave.wait())
                await asyncio.wait([env.data.run, leave], return_when=asyncio.FIRST_COMPLETED)
                leave.cancel()
                if env.data.run.done():
                    env.ev("run-over", name, repr(None if env.data.run.cancelled() else env.data.run.exception()))
            if not env.data.run.done(): env.ev("left-running", name)
            await asyncio.gather(env.data.run, return_exceptions=True)
            env.ev("down", name)
            env.ev("listed", [x.name for x in env.instant(env.data.client.workers())])
        await asyncio.sleep(1e6)

    def injections(self): return sorted(self.stops) if not self.stop_at else []

    def allow_inject(self, op, env): return env.data.__dict__.get("run") is not None and not evs(env, "stop")

    def allow_err(self, op, env): return self.outage and op.proc == "w1"

    async def inject(self, env, which):
        if env.data.__dict__.get("run") is None or evs(env, "stop"): return
        env.ev("stop", which)
        if which == "cancel": env.data.run.cancel()
        else: env.data.leave.set()

    async def main(self, env):
        async with self.client(env) as d:
            env.data.client = d
            env.explore = True
            env.spawn("w1", self.stoppable(env, "w1"))
            todo = sorted([(at, "add", *x) for at, *x in self.plan] + [(at, "cancel", k) for at, k in self.cancels] + ([(self.stop_at[0], "stop", self.stop_at[1])] if self.stop_at else []) +
                          ([(self.second, "second")] if self.second is not None else []))
            for at, what, *x in todo:
                await asyncio.sleep(max(0, 0.5 + at - env.t()))
                if what == "add":
                    key, fn, delay, secs = x
                    await d.add(d.fns[fn], key=key, when=utc() + S(delay) if delay else None)(key, secs)
                elif what == "cancel":
                    await d.cancel(x[0])
                    env.ev("cancelled", x[0])
                elif what == "stop": await self.inject(env, x[0])
                else: self.start_worker(env, "w2")
            await asyncio.sleep(max(0, 0.5 + self.window - env.t()))
            env.explore = False
            if not evs(env, "stop"): await self.inject(env, "cancel")
            await asyncio.sleep(self.settle)
            out = {"listed": [w.name for w in await d.workers()]}
            for _, k, *_ in self.plan:
                e = await d.get_execution(k)
                out[k] = e.state.value if e else None
            return out

    def check(self, env):
        out = []
        st = evs(env, "stop")
        ts, kind = st[0][0], st[0][3]
        slack = 0.05 + 2.2 * self.hold_limit * env.nheld + (1.2 if evs(env, "err") else 0)
        ends = {e[4]: e for e in finishes(env)}
        trace = f"stop by {kind} at {ts:.4f}; bodies {[(e[3], e[1], round(e[0], 3), round(ends[e[4]][0], 3) if e[4] in ends else None, ends[e[4]][5] if e[4] in ends else None) for e in starts(env)]}; records { {k: v for k, v in env.value.items() if k != 'listed'} }"
        mine = [e for e in starts(env) if e[1] == "w1"]
        down = [e[0] for e in evs(env, "down")]
        for e in mine:
            if e[0] > ts + slack: out.append(("started-after-stop", f"{e[3]!r} was started at {e[0]}: {trace}"))
        last = ts
        gone = {e[3]: e[0] for e in evs(env, "cancelled")}
        for e in mine:
            f = ends.get(e[4])
            if f is None:
                out.append(("unfinished", f"{e[3]!r} started at {e[0]} never ended: {trace}"))
                continue
            last = max(last, f[0])
            if f[5] not in (None, "ValueError") and e[3] not in gone: out.append(("interrupted", f"{e[3]!r} started at {e[0]} ended with {f[5]}: {trace}"))
        if not down: out.append(("never-stops", f"the worker did not stop: {trace}"))
        else:
            if down[0] > last + slack + 0.3 + (2.2 if evs(env, "err") else 0): out.append(("stops-late", f"it was down only at {down[0]}, its last body ended at {last}: {trace}"))
            if down[0] < last - 1e-9: out.append(("stops-early", f"it was down at {down[0]} already: {trace}"))
            names = evs(env, "listed")[0][3]
            if "w1" in names and not env.nheld and not evs(env, "err"): out.append(("listed", f"it is listed still when it has stopped: {names}: {trace}"))
        if "w1" in env.value["listed"]: out.append(("listed-later", f"it is listed again long after it has stopped: {trace}"))
        died = [e for e in evs(env, "run-over") if e[4] != "None"]
        if died and not evs(env, "err"): out.append(("died", f"the run ended with {died[0][4]}: {trace}"))
        for _, k, fn, delay, secs in self.plan:
            n = {"flaky": 2}.get(fn, 1)
            got = starts(env, k)
            if k in gone:
                t = gone[k]
                for e in got:
                    f = ends.get(e[4])
                    if f and e[0] < t - 0.01 and f[0] > t + 0.5 + slack: out.append(("cancel-unheard", f"{k!r} was cancelled at {t} but ran on: {trace}"))
                continue
            if self.second is None:
                if len(got) > n: out.append(("runs", f"{k!r} was started {len(got)} times: {trace}"))
                continue
            if len(got) != n and not evs(env, "err"): out.append(("runs", f"{k!r} was started {len(got)} times: {trace}"))
            if len(got) < n: out.append(("lost", f"{k!r} was started {len(got)} times: {trace}"))
            if env.value[k] != "completed" and not (evs(env, "err") and env.value[k] == "failed"): out.append((f"record-{env.value[k]}", f"{k!r} ends as {env.value[k]}: {trace}"))
        for w in ("w1", "w2"):
            now, most = set(), 0
            for e in env.events:
                if e[2] == "start" and e[1] == w:
                    now.add(e[4])
                    most = max(most, len(now))
                elif e[2] == "finish": now.discard(e[4])
            if most > self.concurrency: out.append((f"too-many-{w}", f"{w} ran {most} bodies at once, its concurrency being {self.concurrency}: {trace}"))
        seen = set()
        return [x for x in out if not (x[0] in seen or seen.add(x[0]))]

    def covered(self, env):
        ts = evs(env, "stop")[0][0]
        ends = {e[4]: e[0] for e in finishes(env)}
        return {f"stopped with {len([e for e in starts(env) if e[1] == 'w1' and e[0] <= ts and ends.get(e[4], 1e9) > ts])} running"}


def work(tier):
    deep = tier == "thorough"
    out = []
    burst = [(0, f"t{i}", "job", 0, 0.3) for i in range(5)]
    mixed = [(0, "a", "job", 0, 0.3), (0, "b", "flaky", 0, 0.2), (0.05, "c", "limited", 0, 0.3), (0.05, "d", "limited", 0, 0.2), (0.1, "e", "job", 0.5, 0.2)]
    long = [(0, "a", "job", 0, 3.4), (0.1, "b", "job", 0, 2.6), (0.2, "c", "job", 0, 0.2)]
    for name, plan in (("burst", burst), ("mixed", mixed), ("long", long)):
        for second in (0.0, 2.0):
            out.append((Stop(name=f"stop-{name}-{second}", plan=plan, second=second), Bounds(1, inject=1)))
    out.append((Stop(name="stop-alone", plan=burst, second=None), Bounds(1, inject=1)))
    for c in (1, 3):
        out.append((Stop(name=f"stop-concurrency-{c}", plan=burst, concurrency=c, second=0.0), Bounds(1, inject=1)))
    # a stop at given moments, everything else deviating around it
    for name, plan, ats in (("burst", burst, (0.1, 0.3)), ("mixed", mixed, (0.2, 0.35)), ("long", long, (0.5,))):
        for at in ats:
            for kind in ("cancel", "exit"):
                if not deep and kind == "exit" and at != ats[-1]: continue
                out.append((Stop(name=f"race-{name}-{at}-{kind}", plan=plan, stop_at=(at, kind), second=0.0), Bounds(1 if not deep else 2, m=2, hold=2)))
    # its tasks can still be cancelled, and its connection may fail while it finishes them
    out.append((Stop(name="cancel-while-stopping", plan=long, stop_at=(0.5, "cancel"), cancels=[(1.0, "a")], second=0.0, window=1.6), Bounds(1, m=2, hold=1)))
    out.append((Stop(name="outage", plan=[(0, "a", "job", 0, 0.8), (0.1, "b", "job", 0, 0.5), (0.2, "c", "job", 0, 0.2)], stop_at=(0.4, "cancel"), second=0.0, outage=True, settle=12.0), Bounds(1, err=1)))
    for name, plan in (("burst", burst), ("mixed", mixed)):
        out.append((Stop(name=f"concurrency-{name}", plan=plan, second=0.0, stop_at=(1.3, "cancel")), Bounds(1 if not deep else 2, m=3, hold=2)))
    out.append((Stop(name="stop-race", plan=[(0, "a", "job", 0, 0.3), (0, "b", "job", 0, 0.3), (0, "c", "job", 0, 0.3)], second=0.0, window=0.8), Bounds(2, m=1, hold=1, inject=1)))
    return out
