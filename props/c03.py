"""C03: a connection failure at any Redis operation of a worker loses no task."""
from props.keyed import *
from mc.explore import Bounds

RULE = ("a connection error before or after every single Redis operation of a serving worker (also during its start-up and while it "
        "reconnects), and the loss of its pub/sub connections after every state-changing operation; thorough adds a second error or a reversal")


GATED = ("limited", "rated")       # functions with a dependency that itself talks to Redis


class Errors(Keyed):
    redelivery = 4.0
    heartbeat = 2.0
    hold_limit = 1.0
    plan = ()
    functions = ("job", "fails", "flaky", "limited", "rated", "cleanup")
    keys = ()
    T = 3.0
    settle = 14.0
    worker_args = {}
    drops = False
    explore_procs = ("w1",)
    poll = 0.5

    outages = False

    @property
    def inject_after_reads(self): return self.outages

    def injections(self): return (["drop"] if self.drops else []) + (["outage", "refused"] if self.outages else [])

    async def inject(self, env, which):
        if which == "drop": env.drop_pubsubs("w1")
        else:
            env.ev("outage")
            env.outage("w1", 1.7, drop=which == "outage")

    async def supervised(self, env, name):
        """A worker under a supervisor, which starts it anew when it stops with an error."""
        while True:
            try:
                async with self.client(env) as d:
                    if env.data.go: env.explore = True
                    async with self.worker(d, name) as w:
                        await w.run_forever()
                env.ev("worker-exit", name)
                return
            except asyncio.CancelledError:
                raise
            except BaseException as e:
                env.ev("worker-died", name, repr(e))
                await asyncio.sleep(0.5)

    startup = False
    lease = False

    async def main(self, env):
        env.data.go = self.startup
        async with self.client(env) as d:
            env.data.client = d
            t = env.spawn("w1", self.supervised(env, "w1"))
            await asyncio.sleep(0.5 if not self.startup else 0.1)
            env.explore = True
            for key, fn, delay, secs in self.plan:
                e = await d.add(d.fns[fn], key=key, when=utc() + S(delay) if delay else None)(key, key, secs)
                env.ev("added", key, e.disposition.name)
            await asyncio.sleep(self.T)
            env.explore = False
            env.data.go = False
            await asyncio.sleep(self.settle)
            out = {"died": [e[4] for e in evs(env, "worker-died")], "exited": [e[0] for e in evs(env, "worker-exit")]}
            for key, *_ in self.plan: out[key] = self.state(env, key)
            # the worker serves again as if nothing had happened
            out["workers"] = [w.name for w in await d.workers()]
            t0 = env.t()
            await d.add(d.fns["job"], key="now")("now", "x", 0.2)
            await d.add(d.fns["job"], key="soon", when=utc() + S(1))("soon", "x", 0.2)
            await d.add(d.fns["cleanup"], key="cancelled")("cancelled", "x", 9.0)
            await asyncio.sleep(1.5)
            await d.cancel("cancelled")
            await d.strike("job", "tag", "==", "struck")
            await asyncio.sleep(1.5)
            out["probe"] = [[(r["start"] - t0, r["exc"], r["end"]) for r in self.runs(env, k)] for k in ("now", "soon", "cancelled")]
            if self.lease:
                # a task that runs beyond the redelivery timeout is left alone by a second worker
                await d.add(d.fns["job"], key="stay")("stay", "x", 6.5)
                await asyncio.sleep(0.6)
                self.start_worker(env, "w2")
                await asyncio.sleep(8.0)
                out["stay"] = self.runs(env, "stay")
            s = await d.snapshot()
            out["left"] = [x.key for x in s.future + s.running]
            return out

    def check(self, env):
        out = []
        v = env.value
        if v["exited"]: out.append(("worker-exit", f"the worker stopped serving at {v['exited']} although it was not asked to"))
        for key, fn, *_ in self.plan:
            r = self.runs(env, key)
            want = "ValueError" if fn == "fails" else None
            if not r and fn in GATED and v[key] == "failed" and env.ndev:
                continue        # the error struck while its own admission gate was being resolved: it failed, visibly
            if not [x for x in r if x["end"] is not None and x["exc"] == want]:
                out.append((f"lost-{fn}-{v[key]}", f"task {key!r} ({fn}) was accepted but never ran to completion: runs {r}; its record reads {v[key]}; worker deaths {v['died']}"))
            elif v[key] not in FINAL: out.append((f"state-{fn}-{v[key]}", f"task {key!r} ran, but its record reads {v[key]} in the end"))
        if v["workers"] != ["w1"]: out.append(("not-listed", f"the worker serves but the list of workers reads {v['workers']}"))
        now, soon, can = v["probe"]
        if len(now) != 1 or now[0][0] > 1.0 or now[0][2] is None: out.append(("not-serving", f"a task added later ran {now}"))
        if len(soon) != 1 or not 1.0 <= soon[0][0] <= 2.2 or soon[0][2] is None: out.append(("not-scheduling", f"a task due 1 s later ran {soon}"))
        if len(can) != 1 or can[0][1] != "CancelledError": out.append(("not-cancelling", f"a running task that was cancelled ran {can}"))
        if "stay" in v and (len(v["stay"]) != 1 or v["stay"][0]["end"] is None): out.append(("lease", f"a task that runs beyond the redelivery timeout ran {v['stay']}"))
        if v["left"]: out.append(("left", f"still listed in the end: {v['left']}"))
        return out

    def covered(self, env):
        return {"worker-restarted-by-supervisor" if evs(env, "worker-died") else "worker-served-on"} if env.ndev else ()


def work(tier):
    deep = tier == "thorough"
    b = Bounds(1, err=1, inject=1) if not deep else Bounds(2, m=1, err=1, hold=1, inject=1)
    b1 = Bounds(1, err=1) if not deep else Bounds(2, m=2, err=1, hold=1)
    bo = Bounds(1, inject=1) if not deep else Bounds(2, m=2, inject=1, hold=1)
    jobs = [("a", "job", 0, 0.4), ("b", "job", 0, 1.2), ("c", "job", 1.0, 0.3)]
    return [
        (Errors(name="jobs", plan=jobs, drops=True), b),
        (Errors(name="outage-jobs", plan=jobs, outages=True, settle=20.0), bo),
        (Errors(name="outage-retry", plan=[("f", "flaky", 0, 0.3), ("x", "fails", 0, 0.3)], outages=True, settle=20.0), bo),
        (Errors(name="outage-parked", plan=[("p", "limited", 0, 0.9), ("q", "limited", 0.1, 0.3)], outages=True, settle=20.0), bo),
        (Errors(name="start-up", plan=[("a", "job", 0, 0.4)], startup=True, T=1.5), b1),
        (Errors(name="retry-and-failure", plan=[("f", "flaky", 0, 0.3), ("x", "fails", 0, 0.3)]), b1),
        (Errors(name="parked", plan=[("p", "limited", 0, 0.9), ("q", "limited", 0.1, 0.3), ("r", "limited", 0.2, 0.3)], settle=20.0, drops=True), b),
        (Errors(name="rated", plan=[("p", "rated", 0, 0.3), ("q", "rated", 0, 0.3)]), b1),
        (Errors(name="long", plan=[("p", "job", 0, 6.0)], T=7.0, lease=True), b1),
        (Errors(name="full", concurrency=1, plan=[("a", "job", 0, 0.8), ("b", "job", 0, 0.5), ("c", "flaky", 0, 0.1)], T=4.0), b1),
        (Errors(name="reconnecting-twice", plan=jobs[:2]), Bounds(2, err=2) if deep else Bounds(1, err=1)),
    ]
