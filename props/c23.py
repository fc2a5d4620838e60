"""C23: a snapshot reports every live task once, in its true place."""
from props.keyed import *
from mc.explore import Bounds
from props import keyseq

RULE = ("a snapshot, by clients with and without the functions, at every operation of a workload of future, ready, running, retried, replaced, limited and parked tasks on one or two workers, "
        "with placements of holds, reversals and worker deaths; thousands of tasks at once; and after every step of all short sequences of calls on a key, against a model of the key's life")
NEAR = 0.35


class Snap(Keyed):
    poll = 0.4
    hold_limit = 1.0
    window = 3.0
    settle = 7.0
    redelivery = 4.0
    heartbeat = 1.0
    victims = ()
    explore_from = 0.6
    stops = ()              # workers stopped: (at, name)

    def allow_crash(self, op, env): return op.proc in self.victims

    async def do(self, env, d, op, key, *a):
        if op != "snap": return await super().do(env, d, op, key, *a)
        if key == "bare": d = env.data.bare
        env.data.__dict__.setdefault("snaps", [])
        c = {"t0": env.t(), "h0": len(env.data.hist), "before": {k: self.state(env, k) for k in self.keys}, "held": env.nheld, "res": None, "t1": None, "exc": None}
        env.data.snaps.append(c)
        try:
            c["res"] = await d.snapshot()
        except asyncio.CancelledError: raise
        except Exception as e: c["exc"] = e
        c.update(t1=env.t(), h1=len(env.data.hist), nheld=env.nheld)

    async def main(self, env):
        for at, name in self.stops: env.spawn(f"stop-{name}", self.stopper(env, at, name))
        async with self.docket(env) as env.data.bare:
            return await super().main(env)

    async def stopper(self, env, at, name):
        await asyncio.sleep(self.explore_from + at)
        env.data.workers[name]      # started
        env.ev("stopping", name)
        env.data.wtasks[name].cancel()

    def start_worker(self, env, name, **kw):
        t = super().start_worker(env, name, **kw)
        env.data.__dict__.setdefault("wtasks", {})[name] = t
        return t

    def check(self, env):
        out = []
        calls = self.calls(env)
        dead = {e[1] if len(e) < 4 else e[3]: e[0] for e in evs(env, "crash")}
        for c in env.data.__dict__.get("snaps", []):
            ctx = f"snapshot at {c['t0']:.3f}-{c['t1'] and round(c['t1'], 3)}; records {env.data.hist}; runs { {k: [(r['proc'], r['tag'], r['start'], r['end'], r['exc']) for r in self.runs(env, k)] for k in self.keys} }"
            if c["t1"] is None:
                out.append(("stuck", f"it never returned: {ctx}"))
                continue
            if c["exc"] is not None:
                out.append((f"raises-{type(c['exc']).__name__}", f"it raised {c['exc']!r}: {ctx}"))
                continue
            s = c["res"]
            fut, run = {}, {}
            for x in s.future: fut.setdefault(x.key, []).append(x)
            for x in s.running: run.setdefault(x.key, []).append(x)
            shown = f"future {[x.key for x in s.future]} running {[(x.key, x.worker) for x in s.running]}"
            if s.total_tasks != len(s.future) + len(s.running): out.append(("total", f"total_tasks {s.total_tasks} but {shown}: {ctx}"))
            odd = (set(fut) | set(run)) - set(self.keys)
            if odd: out.append(("not-a-task", f"it lists {sorted(odd)}: {ctx}"))
            calm_env = not c["held"] and not c["nheld"] and not evs(env, "hold") 
            for k in self.keys:
                got = ["future"] * len(fut.get(k, [])) + ["running"] * len(run.get(k, []))
                hist = [(t, st) for t, kk, st in env.data.hist if kk == k]
                state = c["before"][k]
                moved = [1 for _, kk, _ in env.data.hist[c["h0"]:c["h1"]] if kk == k]
                near = [t for t, _ in hist if c["t0"] - NEAR <= t <= c["t1"] + NEAR]
                own = [x for x in calls if x["key"] == k and x["t0"] <= c["t1"] + 0.01 and (x["t1"] is None or x["t1"] >= c["t0"] - 0.01)]
                tick = [r for r in self.runs(env, k) for t in (r["start"], r["end"]) if t is not None and c["t0"] - NEAR <= t <= c["t1"] + NEAR]
                over = [r for r in self.runs(env, k) if r["start"] <= c["t0"] and (r["end"] is None or r["end"] >= c["t0"] - NEAR)]
                superseded = len(over) > 1 or over and state in ("scheduled", "queued")
                if len(got) > 1 and not superseded: out.append(("twice", f"{k!r} is listed as {got}: {ctx}"))
                if moved or own or superseded: continue
                live = state in LIVE
                if live and not got: out.append((f"missing-{state}", f"{k!r} is {state} throughout and not listed ({shown}): {ctx}"))
                if near or tick or not calm_env: continue
                if dead and state in ("running", "queued"): continue       # delivered to the dead worker
                want = [] if not live else ["running"] if state == "running" else ["future"]
                if got != want: out.append((f"place-{state}", f"{k!r} is {state} throughout and listed as {got} ({shown}): {ctx}"))
                elif got:
                    x = (fut.get(k, []) + run.get(k, []))[0]
                    last = [y for y in calls if y["key"] == k and y["res"] == "SCHEDULED" and y["t1"] < c["t0"]][-1]
                    item = next(i for i in self.plan if i[2] == k and i[4] == last["tag"])
                    if x.function_name != item[3] or x.args != (k, last["tag"], item[6]) or x.kwargs: out.append(("wrong-task", f"{k!r} is shown as {x.function_name}{x.args}{x.kwargs}: {ctx}"))
                    when = x.when.timestamp() - sim.BASE / 1e9
                    if len(hist) <= 3 and item[3] in ("job", "fails") and not last["t0"] + item[5] - 0.001 <= when <= last["t1"] + item[5] + 0.001:
                        out.append(("wrong-time", f"{k!r} is shown for {when}, scheduled at {last['t0']} for {item[5]} later: {ctx}"))
                    if want == ["running"]:
                        w = over[-1]["proc"] if over else None
                        if x.worker != w: out.append(("wrong-worker", f"{k!r} runs on {w} and is shown on {x.worker}: {ctx}"))
                        if abs(x.started.timestamp() - sim.BASE / 1e9 - over[-1]["start"]) > NEAR and len(over) == 1 and item[3] not in ("limited",):
                            out.append(("wrong-start", f"{k!r} started at {over[-1]['start']} and is shown as started {x.started}: {ctx}"))
            # the workers
            names = [w.name for w in s.workers]
            gone = {e[1]: e[0] for e in evs(env, "worker-cancelled", "worker-exit", "worker-died")}
            ending = {e[3]: e[0] for e in evs(env, "stopping")}
            if len(set(names)) != len(names): out.append(("worker-twice", f"workers {names}: {ctx}"))
            for n in env.data.__dict__.get("workers", {}):
                up = n not in dead and ending.get(n, 1e9) > c["t1"] and c["t0"] > 0.5
                if up and n not in names and calm_env: out.append(("worker-missing", f"{n} is up, but workers {names}: {ctx}"))
                if n in gone and gone[n] < c["t0"] and n in names: out.append(("worker-gone", f"{n} has stopped, but workers {names}: {ctx}"))
                if n in names and up:
                    t = next(w.tasks for w in s.workers if w.name == n)
                    if not set(self.functions) <= t: out.append(("worker-tasks", f"{n} offers {self.functions}, shown {sorted(t)}: {ctx}"))
        return out

    def covered(self, env):
        out = set()
        for c in env.data.__dict__.get("snaps", []):
            out |= {f"{next(i[3] for i in self.plan if i[2] == k)}: {st}" for k, st in c["before"].items()}
        return out


class Many(World):
    """Thousands of ready and running tasks."""
    poll = 0.5
    redelivery = 60.0
    n = 2500
    max_ops = 500000
    max_time = 1e6

    def tasks(self, env):
        async def job(i: int):
            await asyncio.sleep(5)
        return {"job": job}

    async def main(self, env):
        self.bad = bad = []
        async with self.client(env) as d:
            for i in range(self.n): await d.add(d.fns["job"], key=f"k{i}", when=utc() + S(20) if i % 5 == 4 else None)(i)
            self.look(env, d, 0)
            self.start_worker(env, "w")
            await asyncio.sleep(3)
            self.look(env, d, self.n)
            return True

    def look(self, env, d, on):
        s = env.instant(d.snapshot())
        ready = self.n - self.n // 5
        run = min(self.concurrency, ready) if on else 0
        f, r = sorted(x.key for x in s.future), sorted(x.key for x in s.running)
        if sorted(f + r) != sorted(f"k{i}" for i in range(self.n)): self.bad.append(("many", f"{self.n} tasks are live; listed {len(f)} future (distinct {len(set(f))}) and {len(r)} running (distinct {len(set(r))})"))
        if len(r) != run: self.bad.append(("many-running", f"{run} tasks are running; listed {len(r)} running and {len(f)} future"))
        if s.total_tasks != self.n: self.bad.append(("many-total", f"{self.n} tasks are live; total {s.total_tasks}"))
        if any(x.args != (int(x.key[1:]),) for x in list(s.future) + list(s.running)): self.bad.append(("many-args", "arguments of another task"))

    def check(self, env): return [(k, t) for k, t in self.bad]

    def covered(self, env): return {f"{self.n} tasks, {self.concurrency} slots"}


class Parked(World):
    """Many tasks parked by one concurrency limit, and keys that look like the docket's own."""
    poll = 0.5
    keys = tuple(f"k{i}" for i in range(25)) + ("__a", "__guard", "safeguard:b", "queue", "a b", "é", "x:y:z", "parked")

    def tasks(self, env):
        async def job(i: str, c: ConcurrencyLimit = ConcurrencyLimit(1)):
            async with body(env, i): await asyncio.sleep(0.5)

        async def free(i: str):
            async with body(env, i): await asyncio.sleep(0.5)
        return {"job": job, "free": free}

    async def main(self, env):
        self.bad = []
        async with self.client(env) as d:
            self.start_worker(env, "w")
            await asyncio.sleep(0.3)
            for k in self.keys:
                await d.add(d.fns["job"], key=k)(k)
                await d.add(d.fns["free"], key=k + "!", when=utc() + S(3.0))(k + "!")
            t1 = env.t() + 25
            while env.t() < t1:
                s = env.instant(d.snapshot())
                over = {e[3] for e in finishes(env)}
                all_ = [k for k in self.keys] + [k + "!" for k in self.keys]
                got = sorted(x.key for x in list(s.future) + list(s.running))
                must = sorted(k for k in all_ if k not in over)
                # (one whose body has just ended may still be there)
                if len(set(got)) != len(got) or set(must) - set(got) or len(got) > len(must) + 40 or s.total_tasks != len(got): self.bad.append(("parked", f"live are {must}, listed {got}, total {s.total_tasks}"))
                if any(x.args != (x.key,) for x in list(s.future) + list(s.running)): self.bad.append(("parked-args", "a task is listed with another's arguments"))
                await asyncio.sleep(0.33)

    def check(self, env): return self.bad
    def covered(self, env): return {"many parked"}


def work(tier):
    deep = tier == "thorough"
    out = keyseq.family(("C23",), tier, only=None if deep else "live2|live-fails|idle-flaky") + keyseq.family(("C22", "C23"), tier, only="clear" if deep else "clear-live")
    snaps = {"snap": (("snap", "own"),), "bare": (("snap", "bare"),)}
    plans = {
        "mix": (("job", "fails"), [(0, "add", "k", "job", "a", 0, 0.9), (0, "add", "f", "job", "a", 1.3, 0.3), (0, "add", "r", "job", "a", 0, 0.3), (0, "add", "x", "fails", "a", 0.4, 0.5)]),
        "flaky": (("flaky", "job"), [(0, "add", "k", "flaky", "a", 0, 0.3), (0, "add", "f", "job", "a", 0.5, 0.3)]),
        "parked": (("limited", "job"), [(0, "add", "h", "limited", "a", 0, 0.9), (0.2, "add", "k", "limited", "a", 0, 0.7), (0.2, "add", "f", "job", "a", 1.0, 0.3)]),
        "rated": (("rated",), [(0, "add", "h", "rated", "a", 0, 0.3), (0.2, "add", "k", "rated", "a", 0, 0.3)]),
        "replaced": (("job",), [(0, "add", "k", "job", "a", 0, 0.6), (0.1, "add", "f", "job", "a", 0.9, 0.3), (0.4, "replace", "f", "job", "b", 1.4, 0.3)]),
        "cancelled": (("job",), [(0, "add", "k", "job", "a", 0, 0.8), (0.1, "add", "f", "job", "a", 0.9, 0.3), (0.5, "cancel", "f"), (0.6, "cancel", "k")]),
    }
    for name, (fns, plan) in plans.items():
        keys = tuple(dict.fromkeys(i[2] for i in plan))
        for w, conc in ((1, 1), (1, 10), (2, 1)):
            if not deep and (w, conc) == (1, 10) and name not in ("mix", "parked"): continue
            kw = dict(functions=fns, plan=plan, keys=keys, workers=w, concurrency=conc)
            for which in snaps:
                if not deep and which == "bare" and (w, conc) == (2, 1): continue
                out.append((Snap(name=f"snap-{name}-{w}-{conc}-{which}", acts={which: snaps[which]}, **kw), Bounds(1, inject=1)))
            if deep:
                out.append((Snap(name=f"pairs-{name}-{w}-{conc}", acts={"snap": snaps["snap"]}, **kw), Bounds(2, m=1, inject=1, hold=1)))
    # a worker stops, or dies, while another goes on
    mix = [(0, "add", "k", "job", "a", 0, 0.9), (0, "add", "f", "job", "a", 1.3, 0.3), (0, "add", "r", "job", "a", 0, 0.7)]
    kw = dict(functions=("job",), plan=mix, keys=("k", "f", "r"), workers=2, concurrency=1)
    out.append((Snap(name="stop", acts={"snap": snaps["snap"]}, stops=((0.3, "w2"),), **kw), Bounds(1, inject=1)))
    out.append((Snap(name="death", users=[(t, (("snap", "own"),)) for t in (0.5, 1.0, 2.0)], victims=("w2",), **kw), Bounds(1, crash=1)))
    out.append((Parked(name="parked"), Bounds(0)))
    for n, conc in ((1600, 1100),) if not deep else ((1600, 1100), (2500, 10), (4000, 2500)): out.append((Many(name=f"many-{n}-{conc}", n=n, concurrency=conc), Bounds(0)))
    return out
