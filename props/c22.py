"""C22: clear() removes every waiting task and nothing else."""
from props.keyed import *
from mc.explore import Bounds
from props import keyseq

RULE = ("clear() at every operation of a workload of future, ready, retried, parked and running tasks on one or two workers, with placements of holds, reversals and "
        "worker deaths, followed by adding the keys again; and all short sequences of calls on a key with a clear() among them, against a model of the key's life")
WAITING = ("scheduled", "queued")


class Clear(Keyed):
    poll = 0.4
    hold_limit = 1.0
    window = 2.5
    settle = 9.0
    redelivery = 4.0
    victims = ()
    settled = 0

    def allow_crash(self, op, env): return op.proc in self.victims

    def check(self, env):
        out = []
        calls = self.calls(env)
        dead = evs(env, "crash")
        clears = [c for c in calls if c["op"] == "clear"]
        seq = {}
        for c in clears:
            trace = f"clear() at {c['t0']:.3f}-{c['t1'] and round(c['t1'], 3)}; records {env.data.hist}; runs { {k: [(r['tag'], r['start'], r['end'], r['exc']) for r in self.runs(env, k)] for k in self.keys} }; calls {[(x['op'], x['key'], x['t0'], x['res']) for x in calls]}"
            if c["t1"] is None:
                out.append(("stuck", "clear() never returned"))
                continue
            certain, possible = [], []
            for k in self.keys:
                before = ([s for _, kk, s in env.data.hist[:c["h0"]] if kk == k] or [None])[-1]
                during = [s for _, kk, s in env.data.hist[c["h0"]:c["h1"]] if kk == k]
                own = [x for x in calls if x["key"] == k and x["op"] in ("add", "replace", "cancel") and (x["t1"] is None or x["t1"] >= c["t0"]) and x["t0"] <= c["t1"]]
                if before in WAITING and not set(during) & {"running", "completed", "failed"} and not own and not self.half_parked(env, k, c): certain.append(k)
                if before in WAITING or set(during) & set(WAITING) or own: possible.append(k)
                seq[c["n"], k] = before
            if not len(certain) <= c["res"] <= len(possible):
                out.append(("count", f"it reported {c['res']}, but {certain} were waiting throughout and only {possible} at any time: {trace}"))
            for k in self.keys:
                again = [x for x in calls if x["key"] == k and x["op"] in ("add", "replace") and x["t0"] >= c["t1"]]
                if k in certain:
                    for x in again[:1]:
                        if x["op"] == "add" and x["res"] != "SCHEDULED": out.append(("key-not-freed", f"add({k!r}) afterwards reported {x['res']}: {trace}"))
                    late = [r for r in self.runs(env, k) if r["start"] > c["t1"] and r["tag"] not in [x["tag"] for x in again]]
                    if late: out.append(("cleared-task-ran", f"{k!r} was waiting and ran nevertheless: {trace}"))
                    if not again and env.value[k] in LIVE: out.append(("record-live", f"the record of {k!r} reads {env.value[k]} to the end: {trace}"))
                elif k not in possible:
                    # running or finished: nothing happens to it
                    if again or [x for x in calls if x["key"] == k and x["op"] in ("replace", "cancel")]: continue
                    want = {"fails": "failed"}.get(self.fn_of(k), "completed")
                    for r in self.runs(env, k):
                        ok = "ValueError" if want == "failed" or self.fn_of(k) == "flaky" and r["n"] == self.runs(env, k)[0]["n"] else None
                        if (r["end"] is None or r["exc"] != ok) and not dead: out.append(("disturbed", f"{k!r} was {seq[c['n'], k]} and its run {r} was disturbed: {trace}"))
                    if seq[c["n"], k] in ("running",) and not clears[1:] and env.value[k] != want: out.append((f"lost-{env.value[k]}", f"{k!r} was running and ends as {env.value[k]}: {trace}"))
                    if seq[c["n"], k] in FINAL and env.value[k] != seq[c["n"], k]: out.append(("final", f"{k!r} was {seq[c['n'], k]} and ends as {env.value[k]}: {trace}"))
        for x in calls:
            if x["op"] in ("add", "replace") and x["res"] == "SCHEDULED":
                after = [c for c in calls if c["t1"] is None or c["t1"] >= x["t0"] if c is not x and c["op"] in ("clear", "cancel", "replace") and c["key"] in ("*", x["key"])]
                if after: continue
                rs = [r for r in self.runs(env, x["key"], x["tag"]) if r["exc"] != "ValueError"]
                if self.fn_of(x["key"]) == "fails" and x["tag"] != "x": continue
                if not rs or (len(rs) != 1 or rs[0]["end"] is None or rs[0]["exc"]) and not dead:
                    out.append(("readd", f"{x['key']!r} scheduled at {x['t0']} did not run exactly once: {rs}; calls {[(y['op'], y['key'], y['t0'], y['res']) for y in calls]}; records {env.data.hist}"))
        return out

    def half_parked(self, env, k, c): return False

    def fn_of(self, k):
        return next(i[3] for i in self.plan if i[1] in ("add", "replace") and i[2] == k)

    def covered(self, env):
        out = set()
        for c in self.calls(env):
            if c["op"] == "clear": out |= {f"{self.fn_of(k)}: {([s for _, kk, s in env.data.hist[:c['h0']] if kk == k] or [None])[-1]}" for k in self.keys}
        return out


class Many(World):
    """However many tasks are waiting, all of them go."""
    poll = 0.5

    def tasks(self, env):
        async def job(n):
            async with body(env, f"k{n}"): ...
        return {"job": job}

    async def main(self, env):
        self.bad, self.n = [], 0
        async with self.client(env) as d:
            for ready, later in self.sizes:
                for i in range(ready + later): await d.add(d.fns["job"], key=f"k{i}", when=utc() + S(1 + i / 100) if i >= ready else None)(i)
                got, left = await d.clear(), (await d.snapshot()).total_tasks
                again = await d.clear()
                if (got, left, again) != (ready + later, 0, 0): self.bad.append(f"of {ready} ready and {later} scheduled tasks clear() reported {got}, left {left}, and then {again}")
            self.start_worker(env, "w1")
            await asyncio.sleep(5)
            if starts(env): self.bad.append(f"{len(starts(env))} cleared tasks ran, {[e[3] for e in starts(env)][:3]}...")

    def check(self, env): return [("many", b) for b in self.bad]

    def covered(self, env): return {f"{a}+{b}" for a, b in self.sizes}


def work(tier):
    deep = tier == "thorough"
    out = keyseq.family(("C22",), tier, only="clear")
    acts = {"clear": (("clear", "*"),)}
    adds = {"clear-add": (("clear", "*"), ("add", "k", "job", "x"), ("add", "f", "job", "x"))}
    mix = [(0, "add", "k", "job", "a", 0, 0.6), (0, "add", "f", "job", "a", 0.9, 0.2), (0, "add", "r", "job", "a", 0, 0.2)]
    for name, fns, plan, keys in (("mix", ("job",), mix, ("k", "f", "r")),
                                  ("flaky", ("flaky", "job"), [(0, "add", "k", "flaky", "a", 0, 0.3), (0, "add", "f", "job", "a", 0.5, 0.3)], ("k", "f")),
                                  ("fails", ("fails", "job"), [(0, "add", "k", "fails", "a", 0.3, 0.3), (0, "add", "f", "job", "a", 0.5, 0.3)], ("k", "f")),
                                  ("rated", ("rated", "job"), [(0, "add", "h", "rated", "a", 0, 0.1), (0.2, "add", "k", "rated", "a", 0, 0.3), (0.2, "add", "f", "job", "a", 0.5, 0.3)], ("h", "k", "f")),
                                  ("parked", ("limited", "job"), [(0, "add", "h", "limited", "a", 0, 0.8), (0.2, "add", "k", "limited", "a", 0, 0.3), (0.2, "add", "f", "job", "a", 1.0, 0.3)], ("h", "k", "f")),
                                  ("replaced", ("job",), [(0, "add", "k", "job", "a", 0, 0.8), (0.3, "replace", "k", "job", "b", 0.9, 0.2), (0, "add", "f", "job", "a", 0.5, 0.2)], ("k", "f"))):
        for w, conc in ((1, 1), (1, 10), (2, 1)):
            if not deep and (w, conc) == (1, 10) and name in ("fails", "rated"): continue
            kw = dict(functions=fns, plan=plan, keys=keys, workers=w, concurrency=conc)
            out.append((Clear(name=f"clear-{name}-{w}-{conc}", acts=acts, **kw), Bounds(1, inject=1)))
            out.append((Clear(name=f"clear-add-{name}-{w}-{conc}", acts=adds, **kw), Bounds(1, inject=1)))
            if deep or w == 2:
                t = {"mix": 0.3, "parked": 0.4}.get(name, 0.35)
                for at in (t,) if not deep else (0.0, 0.2, t, 0.6):
                    out.append((Clear(name=f"race-{name}-{w}-{conc}-{at}", users=[(at, (("clear", "*"), ("add", "k", "job", "x")))], **kw), Bounds(1 if not deep else 2, m=2, hold=1)))
    for sizes in ((0, 130), (130, 0), (120, 120)), ((1, 0), (0, 1), (11, 0), (0, 11), (20, 20)):
        out.append((Many(name=f"many-{sizes[0][0]}", sizes=sizes), Bounds(0)))
    if deep: out.append((Many(name="many-deep", sizes=((1100, 0), (0, 1100))), Bounds(0)))
    # the worker of a running task dies around the clear: the task still comes to its proper end
    for fn in ("job", "flaky"):
        out.append((Clear(name=f"death-{fn}", functions=tuple({fn, "job"}), workers=2, concurrency=2, victims=("w1", "w2"), settle=14.0, users=[(0.3, (("clear", "*"),))],
                          plan=[(0, "add", "k", fn, "a", 0, 0.6), (0, "add", "f", "job", "a", 0.9, 0.2)], keys=("k", "f")), Bounds(1 if not deep else 2, m=2, crash=1)))
    return out
