"""C11: a perpetual task has exactly one successor per run until stopped."""
import itertools
from docket import Retry, Perpetual
from props.keyed import *
from mc.explore import Bounds

RULE = ("all short sequences of what the runs of a chain do (return, fail, change arguments, ask for a time, replace or re-add themselves, cancel "
        "themselves, from within or through the API), over periods and durations, one and two workers; and replace, cancel and add by another client "
        "at every operation of a chain, with reversals of racing operations")
LAT = 0.25
BEHAVE = {".": "returns", "f": "fails", "p": "perpetuates other arguments", "a": "after(0.9)", "t": "at(in 1.2 s)", "o": "at(the past)", "r": "replaces itself",
          "d": "adds itself", "P": "after(0.9), other arguments, then fails", "q": "after(3), then after(0.9)", "u": "after(3), then at(in 1.2 s)"}


class Grid(World):
    """One chain per sequence of behaviours; the sequence ends with a self-cancelling run."""
    poll = 0.05
    redelivery = 60.0
    concurrency = 5000
    workers = 1
    every = 0.5
    secs = 0.2
    length = 2
    end = "c"               # 'c': perpetual.cancel(), 'x': cancel() through the API while the successor is pending, 'F': cancels itself and fails
    retry = False
    max_ops = 10 ** 7
    max_time = 1e9

    def sequences(self): return ["".join(s) for s in itertools.product(BEHAVE, repeat=self.length)]

    def tasks(self, env):
        w = self

        def make(**more):
            async def chain(name: str, n: int, mark: str, perpetual: Perpetual = Perpetual(every=S(w.every)), **more_):
                seq = w.sequences()[int(name[1:])]
                b = seq[n] if n < len(seq) else w.end
                async with body(env, name, n, mark, b):
                    env.data.count[name] = env.data.count.get(name, 0) + 1
                    if env.data.count[name] > 30: perpetual.cancel()
                    d = env.data.docks["w0"]
                    await asyncio.sleep(w.secs)
                    nxt = f"{mark[:1]}{n + 1}"
                    if b != "r": perpetual.perpetuate(name, n + 1, mark)
                    if b in "pP": perpetual.perpetuate(name, n + 1, mark=mark + "'")
                    if b in "qu": perpetual.after(S(3))
                    if b in "aPq": perpetual.after(S(0.9))
                    if b in "tu": perpetual.at(utc() + S(1.2))
                    if b == "o": perpetual.at(utc() - S(3))
                    if b == "r":
                        perpetual.perpetuate(name, 99, "wrong")
                        await d.replace(d.fns["chain"], key=name, when=utc() + S(0.7))(name, n + 1, mark + "r")
                    if b == "d": env.data.adds.append((name, n, (await d.add(d.fns["chain"], key=name)(name, n + 1, "wrong")).disposition.name))
                    if b == "c" or b == "F": perpetual.cancel()
                    if b in "fPF": raise ValueError(f"{name}-{n}")
                return "x" * 5
            return chain
        return {"chain": make()}

    async def main(self, env):
        env.data.docks, env.data.adds, env.data.count = {}, [], {}
        seqs = self.sequences()
        async with self.client(env) as d:
            env.data.docks["w0"] = d
            for n in range(self.workers): self.start_worker(env, f"w{n}")
            await asyncio.sleep(0.5)
            for i, s in enumerate(seqs):
                await d.add(d.fns["chain"], key=f"k{i}")(f"k{i}", 0, "m")
            if self.end == "x":
                todo = {f"k{i}": s for i, s in enumerate(seqs)}
                while todo and env.t() < 100:
                    await asyncio.sleep(0.1)
                    for k in list(todo):
                        done = [e for e in env.events if e[2] == "finish" and e[3] == k]
                        if len(done) == len(todo[k]) + 1 and env.t() > done[-1][0] + 0.1:
                            e = await d.get_execution(k)
                            if e.state.value in ("scheduled", "queued"):
                                env.ev("stop", k)
                                await d.cancel(k)
                                del todo[k]
            await asyncio.sleep(5 + (self.length + 2) * 2)
            out = {}
            for i in range(len(seqs)):
                e = await d.get_execution(f"k{i}")
                out[f"k{i}"] = e.state.value if e is not None else None
            return out

    def check(self, env):
        out = []
        per = {}
        for e in env.events:
            if e[2] == "start": per.setdefault(e[3], []).append({"t": e[0], "n": e[5], "mark": e[6], "b": e[7], "id": e[4], "end": None})
            elif e[2] == "finish":
                for r in per[e[3]]:
                    if r["id"] == e[4]: r["end"] = e[0]
        stops = {e[3]: e[0] for e in evs(env, "stop")}
        for i, s in enumerate(self.sequences()):
            k = f"k{i}"
            what = f"runs doing {[BEHAVE[b] for b in s]} then {self.end}, every {self.every}, {self.secs} s each"
            r = per.get(k, [])
            marks, m = ["m"], "m"
            for b in s:
                m += {"p": "'", "P": "'", "r": "r"}.get(b, "")
                marks.append(m)
            n = len(s) + 1
            got = [(x["n"], x["mark"]) for x in r]
            extra = got[n:]
            if got[:n] != list(enumerate(marks)) or (extra and k not in stops) or (extra and r[n]["t"] > stops[k] - 0.0):
                out.append(("runs-" + (s + self.end if len(got) <= n else "more"), f"{what}: ran {got}, expected {list(enumerate(marks))}"))
                continue
            for a, b_, x in zip(s, r, r[1:]):
                if b_["end"] is None or x["t"] < b_["end"]:
                    if a != "r": out.append(("overlap", f"{what}: {b_} {x}"))
                    continue
                ev = max(b_["end"], b_["t"] + self.every)
                due = {"a": b_["end"] + 0.9, "P": b_["end"] + 0.9, "t": b_["end"] + 1.2, "q": b_["end"] + 0.9, "u": b_["end"] + 1.2, "o": b_["end"], "r": b_["end"] + 0.7}.get(a, ev)
                if not due - 0.02 <= x["t"] <= due + LAT:
                    out.append((f"time-{a}", f"{what}: run {x['n']} started at {x['t']}, expected at {due}"))
            if env.value[k] not in {"c": ("completed", "cancelled"), "F": ("failed", "cancelled"), "x": ("cancelled",)}[self.end]: out.append((f"record-{env.value[k]}", f"{what}: the record reads {env.value[k]} after the chain was ended"))
        for name, n, disp in env.data.adds:
            if disp != "ALREADY_SCHEDULED": out.append(("add-within", f"add() of a key from its own run reported {disp}"))
        return out

    def counts(self, env): return len(self.sequences()), len(starts(env))


class Chain(Keyed):
    """A chain meets calls of another client."""
    every = 1.0
    window = 5.0
    settle = 6.0
    functions = ("chain", "frail")

    def tasks(self, env):
        every = self.every

        async def chain(name: str, tag: str, secs: float, perpetual: Perpetual = Perpetual(every=S(every))):
            async with body(env, name, tag):
                if len(starts(env)) > 60: perpetual.cancel()
                await asyncio.sleep(secs)

        async def frail(name: str, tag: str, secs: float, perpetual: Perpetual = Perpetual(every=S(every))):
            async with body(env, name, tag):
                if len(starts(env)) > 60: perpetual.cancel()
                await asyncio.sleep(secs)
                raise ValueError(tag)

        async def quits(name: str, tag: str, secs: float, perpetual: Perpetual = Perpetual(every=S(every))):
            async with body(env, name, tag):
                await asyncio.sleep(secs)
                perpetual.cancel()
        return {"chain": chain, "frail": frail, "quits": quits}

    def check(self, env):
        out = []
        cs = self.calls(env)
        first, user = cs[0], cs[1:]
        if first["res"] == "ALREADY_SCHEDULED": return []
        for c in user:
            if c["t1"] is None: return [("stuck", f"{c['op']} never returned")]
        end = env.end_ns / 1e9 if False else env.t()
        late = 2 * self.poll + 0.2 + self.hold_limit * env.nheld
        tags = {first["tag"]: first, **{c["tag"]: c for c in user if c["tag"]}}
        per = {t: sorted(self.runs(env, "k", t), key=lambda r: r["start"]) for t in tags}
        for t, r in per.items():
            for a, b in zip(r, r[1:]):
                if a["end"] is None or b["start"] < a["end"]: out.append(("overlap", f"runs of {t} overlap: {a} {b}"))
                elif a["exc"] == "CancelledError": out.append(("continued-after-interruption", f"the chain {t} went on after {a} was interrupted"))
                elif b["start"] < max(a["end"], a["start"] + self.every) - 0.02: out.append(("early", f"a run of {t} at {b['start']} after {a}"))
                elif b["start"] > max(a["end"], a["start"] + self.every) + late: out.append(("late", f"a run of {t} only at {b['start']} after {a}"))
        cuts = sorted((c for c in user if c["op"] == "cancel" or (c["op"] == "replace" and c["res"] == "SCHEDULED")), key=lambda c: c["t1"])
        for c in cuts:
            before = [t for t in tags if t != c["tag"] and (tags[t]["t1"] or 9e9) <= c["t0"]]
            for t in before:
                later = [r for r in per[t] if r["start"] > c["t1"] + 1e-9]
                if c["op"] == "replace" and later:
                    out.append(("replaced-goes-on", f"replace() returned at {c['t1']} (record: {self.during(env, c)}), {t} started again at {later[0]['start']}"))
                if c["op"] == "cancel" and later:
                    out.append(("cancelled-goes-on", f"cancel() returned at {c['t1']} (record: {self.during(env, c)}), {t} started again at {later[0]['start']}"))
        # the chain that should be going on at the end
        if not cuts: alive = [first["tag"]]
        elif len(cuts) == 1 and cuts[0]["op"] == "replace": alive = [cuts[0]["tag"]]
        else: alive = []
        for t in alive:
            if t == first["tag"] and self.plan[0][3] == "quits": continue
            r = per[t]
            if not r or r[-1]["start"] + max(self.every, 0.3) + late + 0.5 < end:
                out.append(("broken", f"the chain {t} stopped: its last run was {r[-1] if r else None}, the time is {end}"))
            t0 = tags[t]["t1"]
            if r and r[0]["start"] > t0 + late + 0.1 + (0.6 if t == "z" else 0): out.append(("first-late", f"{t} was scheduled at {t0} and started at {r[0]['start']}"))
        return out

    def covered(self, env): return {f"{c['op']}-while-{c['before']}" for c in self.calls(env)[1:]}


class Survives(World):
    """A worker dies, or one of its requests fails: the chain goes on, once (a lock the worker held lasts ten seconds)."""
    poll = 0.5
    redelivery = 2.0
    heartbeat = 1.0
    hold_limit = 0.5
    mode = "death"
    frail = False
    automatic = False
    every = 0.6
    window = 1.8
    settle = 11.0

    def tasks(self, env):
        async def tick(name: str = "k", p: Perpetual = Perpetual(every=S(self.every), automatic=self.automatic)):
            async with body(env, name):
                await asyncio.sleep(0.2)
                if self.frail and len(starts(env)) % 2: raise ValueError("sometimes")
        return {"tick": tick}

    @property
    def auto(self): return self.automatic

    def allow_crash(self, op, env): return op.proc == "w1"
    def allow_err(self, op, env): return op.proc == "w1"

    async def supervised(self, env, name):
        while True:
            try:
                async with self.client(env) as d:
                    async with self.worker(d, name) as w: await w.run_forever()
                return
            except asyncio.CancelledError: raise
            except BaseException as e:
                env.ev("worker-died", name, repr(e))
                await asyncio.sleep(0.5)

    async def main(self, env):
        async with self.client(env) as d:
            if self.mode == "error": env.spawn("w1", self.supervised(env, "w1"))
            else:
                self.start_worker(env, "w1")
                await asyncio.sleep(0.1)
                self.start_worker(env, "w2")
            await asyncio.sleep(0.3)
            env.explore = True
            if not self.automatic: await d.add(d.fns["tick"], key="k")()
            await asyncio.sleep(self.window)
            env.explore = False
            await asyncio.sleep(self.settle)

    def check(self, env):
        out = []
        s, f = starts(env), {e[4]: e for e in finishes(env)}
        ctx = f"runs {[(x[0], x[1], f[x[4]][0] if x[4] in f else None) for x in s]}; {[e for e in env.events if e[2] in ('crash', 'err', 'worker-died')]}"
        for a, b in zip(s, s[1:]):
            if a[1] in env.dead and a[4] not in f: continue
            if a[4] not in f or f[a[4]][0] > b[0]: out.append(("overlap", f"runs of the chain overlap: {ctx}"))
        late = self.every + 2 * self.poll + 0.3
        tail = [x[0] for x in s if x[0] > env.t() - 5.0]
        if not tail or max(b - a for a, b in zip([env.t() - 5.0] + tail, tail + [env.t()])) > late: out.append(("broken", f"the chain does not go on: {ctx}"))
        if any(b - a < self.every - 0.05 for a, b in zip(tail, tail[1:])): out.append(("doubled", f"the chain runs more often than it should: {ctx}"))
        return out


def work(tier):
    deep = tier == "thorough"
    n = 3 if deep else 2
    out = []
    for every, secs in ((0.5, 0.2), (0.3, 0.6), (0.0, 0.2)):
        for end in ("c", "x", "F") if every > secs else ("c", "F"):
            for w in (1, 2):
                out.append((Grid(name=f"grid-{every}-{secs}-{end}-{w}", every=every, secs=secs, end=end, workers=w, length=n), Bounds(depth=0)))
    acts = {"cancel": [("cancel", "k")], "add": [("add", "k", "chain", "x", 0)], "replace": [("replace", "k", "chain", "r", 0)],
            "replace-later": [("replace", "k", "chain", "z", 0.6)]}
    b = Bounds(2, m=1 if not deep else 3, lm=1, inject=1, hold=1, late=1 if deep else 0)
    b1 = Bounds(2, m=1, inject=1, hold=1)
    plan = [(0, "add", "k", "chain", "a", 0)]
    frail = [(0, "add", "k", "frail", "a", 0)]
    quits = [(0, "add", "k", "quits", "a", 0)]
    out += [
        (Chain(name="chain", acts=acts, plan=plan, window=2.5), b),
        (Chain(name="chain-two-workers", acts=acts, plan=plan, workers=2, window=1.6), b1),
        (Chain(name="frail", acts=acts, plan=frail, window=2.5), b),
        (Chain(name="at-once", acts=acts, plan=plan, every=0.0, window=0.5 if not deep else 0.9, settle=2.0), b1),
        (Chain(name="quits", acts={k: acts[k] for k in ("replace", "replace-later")}, plan=quits, window=1.5), b),
    ]
    for mode in ("death", "error"):
        for frail in (False, True):
            for auto in (False, True) if not frail or deep else (False,):
                out.append((Survives(name=f"{mode}-{'frail-' if frail else ''}{'automatic' if auto else 'added'}", mode=mode, frail=frail, automatic=auto, settle=20.0 if not (auto and mode == "error") else 40.0), Bounds(1 if not deep else 2, m=1 if deep else 0, hold=1 if deep else 0, **{"crash" if mode == "death" else "err": 1})))
    return out
