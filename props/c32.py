"""C32: dockets with different names never affect one another, and keys may be any text."""
from docket import Progress, Retry, Perpetual, ConcurrencyLimit, RateLimit, Debounce, Cooldown
from mc.world import *
from mc.explore import Bounds

RULE = ("a docket with tasks of every kind beside a docket whose name differs in every awkward way, on which every operation is carried out at every stage, "
        "compared with an undisturbed docket; the same tasks with each key replaced by every awkward text")
NAMES = (("a", "b"), ("a", "a:b"), ("a:b", "a"), ("a", "a*"), ("a*", "ab"), ("a?", "ab"), ("a[b]", "ab"), ("ab", "a[b]"), ("a[b]", "a[c]"), ("a", "A"), ("a", "a "), ("a\\b", "ab"),
         ("ä", "a"), ("{a}", "a"), ("a", "{a}"), ("a", "a:cancel"), ("a:cancel", "a"), ("*", "x"), ("a^", "a"), ("[^a]", "b"), ("a:state", "a"), ("docket", "d"))
OPS = ("cancel", "replace", "add", "strike", "clear", "worker", "same-worker", "restore", "look", "limits")
KEYS = ("a b", "a:b", "ä€😀", "*", "a*", "[x]", "?", "{x}", "x:lock", "a\nb", "a\\b", "%s{}", "\"'", "x" * 300, "cancel:p", " ", "0", "None", "a/b", "<&>", "k,1=2")
OWN = ("results", "state:parked", "parked:parked", "perpetual:lock", "cancel:run", "known:none", "runs:none")
INTERNAL = ("queue", "stream", "workers", "strikes", "runs:run", "runs:parked", "progress:run", "known:parked", "known:run", "stream-id:parked", "worker-tasks:w", "task-workers:job",
            "concurrency:who:x", "cooldown:cooled")         # a known finding
ROLES = ("parked", "run", "stop", "flaky", "perp", "lim1", "lim2", "rate1", "deb", "cool1", "moved", "dropped", "result")
EPS = 0.04


class Beside(World):
    poll = 0.25
    concurrency = 20
    names = ("a", "b")
    op = None
    at = 0.6
    keys = {}
    max_ops = 500000
    safe = False                # the disturbing docket offers nothing

    def tag(self): return sim.PROC.get().split("/")[0]

    def tasks(self, env):
        def log(what, role, *more): env.ev("seen", self.tag(), what, role, *more)

        async def job(role: str, secs: float = 0.3):
            log("start", role)
            try:
                await asyncio.sleep(secs)
                log("end", role)
            except asyncio.CancelledError:
                log("interrupted", role)
                raise
            return role + "!"

        async def steps(role: str, p: Progress = Progress()):
            log("start", role)
            await p.set_total(5)
            for i in range(5):
                await asyncio.sleep(0.3)
                await p.increment()
            await p.set_message("done")
            log("end", role)

        async def flaky(role: str, r: Retry = Retry(attempts=3, delay=S(0.4))):
            log("start", role, r.attempt)
            if r.attempt < 3: raise ValueError()
            return 3

        async def perp(role: str, p: Perpetual = Perpetual(every=S(0.45))):
            n = env.data.__dict__.setdefault("laps", {})
            me = (self.tag(), role)
            n[me] = n.get(me, 0) + 1
            log("start", role, n[me])
            if n[me] == 5: p.cancel()

        async def limited(role: str, who: str, c: ConcurrencyLimit = ConcurrencyLimit("who", 1)):
            log("start", role)
            await asyncio.sleep(0.5)
            log("end", role)

        async def rated(role: str, l: RateLimit = RateLimit(1, per=S(1.0))): log("start", role)

        async def settled(role: str, l: Debounce = Debounce(S(0.7))): log("start", role)

        async def cooled(role: str, l: Cooldown = Cooldown(S(1.0))): log("start", role)
        return dict(job=job, steps=steps, flaky=flaky, perp=perp, limited=limited, rated=rated, settled=settled, cooled=cooled)

    async def one(self, env, tag, name, keys):
        """The workload, on the docket of that name."""
        key = lambda role: keys.get(role, role)
        role = {v: k for k, v in keys.items()}
        log = lambda what, *more: env.ev("seen", tag, what, *more)
        t0 = env.t()

        async def until(t): await asyncio.sleep(max(0, t0 + t - env.t()))

        async def watch(d, what):
            e = Execution(d, d.fns["job"], (), {}, key(what), utc(), 1)
            k = 0
            async for x in e.subscribe():
                k += 1
                if k > 2: log("heard", what, x["state"].value if x["type"] == "state" else (x["current"], x["total"], x["message"]), role.get(x["key"], x["key"]))

        async def result(d, what):
            e = await d.get_execution(key(what))
            try: log("result", what, await e.get_result(timeout=S(6)) if e else "none")
            except BaseException as x: log("result", what, type(x).__name__)

        async def look(d):
            s = await d.snapshot()
            log("snapshot", tuple(sorted((role.get(x.key, x.key), x.function.__name__) for x in s.future)), tuple(sorted((role.get(x.key, x.key), x.worker) for x in s.running)),
                tuple(sorted(w.name for w in s.workers)), s.total_tasks)

        async def act(what, f):
            try:
                x = await f
                if x is not None and hasattr(x, "disposition"): log(what, x.disposition.name)
            except Exception as e: log(what, type(e).__name__)
        async with self.docket(env, name=name) as d:
            fns = d.fns = self.tasks(env)
            for f in fns.values(): d.register(f)
            env.data.dockets[tag] = d
            for r in ("parked", "run", "stop", "perp", "flaky", "lim2", "moved"): env.spawn(f"{tag}/watch-{r}", watch(d, r))
            await until(0.1)
            await act("add parked", d.add(fns["job"], key=key("parked"), when=utc() + S(1.4))("parked"))
            await act("add run", d.add(fns["steps"], key=key("run"))("run"))
            await act("add stop", d.add(fns["job"], key=key("stop"))("stop", 5.0))
            await act("add flaky", d.add(fns["flaky"], key=key("flaky"))("flaky"))
            await act("add perp", d.add(fns["perp"], key=key("perp"))("perp"))
            await until(0.15)
            for i in (1, 2, 3):
                await act("add lim", d.add(fns["limited"], key=key(f"lim{i}"))(f"lim{i}", "x"))
                await asyncio.sleep(0.03)
            for i in (1, 2): await act("add rate", d.add(fns["rated"], key=key(f"rate{i}"))(f"rate{i}"))
            await act("add deb", d.add(fns["settled"], key=key("deb"))("deb"))
            for i in (1, 2):
                await act("add cool", d.add(fns["cooled"], key=key(f"cool{i}"))(f"cool{i}"))
                await asyncio.sleep(0.05)
            await act("add moved", d.add(fns["job"], key=key("moved"), when=utc() + S(0.5))("moved"))
            await act("add dropped", d.add(fns["job"], key=key("dropped"), when=utc() + S(1.2))("dropped"))
            await act("add result", d.add(fns["job"], key=key("result"), when=utc() + S(0.9))("result"))
            await act("strike", d.strike("job", "role", "==", "struck"))
            for r in ("run", "result", "flaky"): env.spawn(f"{tag}/result-{r}", result(d, r))
            await until(0.5)
            await look(d)
            await act("replace", d.replace(fns["job"], key=key("moved"), when=utc() + S(1.6))("moved"))
            await act("again", d.add(fns["job"], key=key("parked"), when=utc() + S(3))("parked"))
            await act("struck", d.add(fns["job"], key="struck")("struck"))
            await until(0.9)
            await act("cancel stop", d.cancel(key("stop")))
            await act("cancel dropped", d.cancel(key("dropped")))
            await until(1.3)
            await look(d)
            await until(2.6)
            await look(d)
            await until(4.5)
            await look(d)
            for r in ROLES:
                e = await d.get_execution(key(r))
                log("final", r, e and e.state.value)
            await act("anew", d.add(fns["job"], key=key("parked"), when=utc() + S(0.3))("parked"))
            await until(5.5)

    async def work_for(self, env, tag, name, worker):
        async with self.docket(env, name=name) as d:
            for f in self.tasks(env).values(): d.register(f)
            async with self.worker(d, worker) as w: await w.run_forever()

    async def disturb(self, env, name):
        async with self.docket(env, name=name) as d:
            fns = self.tasks(env)
            for f in fns.values(): d.register(f)
            await asyncio.sleep(self.at)
            keys = [self.keys.get(r, r) for r in ROLES] + ["lim3", "rate2", "cool2", "struck"]
            if self.op == "cancel":
                for k in keys: await d.cancel(k)
            elif self.op == "replace":
                for k in keys: await d.replace(fns["job"], key=k, when=utc() + S(0.4))(k)
            elif self.op == "add":
                for k in keys: await d.add(fns["job"], key=k, when=None if len(k) % 2 else utc() + S(0.4))(k)
            elif self.op == "strike":
                for f in fns: await d.strike(f)
                await d.strike(None, "role", "!=", "nothing")
            elif self.op == "restore":
                await d.strike("job", "role", "==", "struck")
                await d.restore("job", "role", "==", "struck")
            elif self.op == "clear":
                for k in keys: await d.add(fns["job"], key=k, when=utc() + S(5))(k)
                await d.clear()
            elif self.op in ("worker", "same-worker", "limits"):
                t = env.spawn("disturber/w", self.work_for(env, "disturber", name, "w" if self.op == "same-worker" else "other"))
                for k in keys:
                    if self.op != "limits": await d.add(fns["job"], key=k)(k)
                for i in range(3 if self.op == "limits" else 0):
                    await d.add(fns["limited"], key=f"lim{i}")(f"lim{i}", "x")
                    await d.add(fns["rated"], key=f"rate{i}")(f"rate{i}")
                    await d.add(fns["settled"], key=f"deb{i}")(f"deb{i}")
                    await d.add(fns["cooled"], key=f"cool{i}")(f"cool{i}")
                await asyncio.sleep(0.6)
                for k in keys: await d.cancel(k)
                t.cancel()
                await asyncio.gather(t, return_exceptions=True)
            elif self.op == "look":
                s = await d.snapshot()
                ws = await d.workers()
                ex = [k for k in keys if await d.get_execution(k) is not None]
                if s.total_tasks or s.future or s.running or ws or ex: env.ev("leak", repr((s, ws, ex))[:300])
            await asyncio.sleep(5)

    async def main(self, env):
        env.data.dockets = {}
        env.spawn("subject/w", self.work_for(env, "subject", self.names[0], "w"))
        env.spawn("control/w", self.work_for(env, "control", "Zcontrol", "w"))
        await asyncio.sleep(0.3)
        a = env.spawn("subject/u", self.one(env, "subject", self.names[0], self.keys))
        b = env.spawn("control/u", self.one(env, "control", "Zcontrol", {}))
        if self.op: env.spawn("disturber/u", self.disturb(env, self.names[1]))
        await asyncio.gather(a, b, return_exceptions=True)
        for n, t in (("subject", a), ("control", b)):
            if t.exception(): env.ev("broke", n, repr(t.exception()))
        return True

    def check(self, env):
        out = []
        what = f"docket {self.names[0]!r}" + (f" beside {self.names[1]!r}, {self.op} at {self.at}" if self.op else f" with keys {self.keys}")
        for e in evs(env, "broke"): out.append(("broke", f"{what}: {e[3]}: {e[4]}"))
        for e in evs(env, "leak"): out.append(("leak", f"{what}: it shows {e[3]}"))
        per = {"subject": {}, "control": {}}
        for e in evs(env, "seen"):
            if e[3] == "disturber": continue
            k = (e[4], e[5] if len(e) > 5 and isinstance(e[5], str) and e[4] in ("start", "end", "interrupted", "heard", "result", "final") else "")
            per[e[3]].setdefault(k, []).append((e[0], e[5:]))
        for k in sorted(set(per["subject"]) | set(per["control"])):
            a, b = per["subject"].get(k, []), per["control"].get(k, [])
            if [x[1] for x in a] != [x[1] for x in b] or any(abs(x[0] - y[0]) > EPS for x, y in zip(a, b)):
                out.append((k[0], f"{what}: {k}: {[(round(x[0], 2), *x[1]) for x in a]}, undisturbed {[(round(x[0], 2), *x[1]) for x in b]}"))
        if len([1 for e in evs(env, "seen") if e[3] == "control"]) < 60: out.append(("control", f"{len(evs(env, 'seen'))}"))
        return out

    def covered(self, env): return {self.op or "keys"}


def work(tier):
    deep = tier == "thorough"
    out = []
    for n in NAMES:
        for op in OPS:
            for at in (0.05, 0.75, 1.6) if not deep else (0.05, 0.3, 0.5, 0.75, 1.0, 1.25, 1.6, 2.2, 3.0):
                if not deep and at != 0.75 and n not in NAMES[:6]: continue
                out.append((Beside(name=f"{n[0]}~{n[1]}-{op}-{at}", names=n, op=op, at=at), Bounds(0)))
    for n in sorted({x for p in NAMES for x in p}): out.append((Beside(name=f"name-{n}", names=(n, None)), Bounds(0)))
    for k in KEYS + OWN:
        for r in ROLES if deep else (ROLES[:6] + ROLES[9:]):
            out.append((Beside(name=f"key-{k[:20]}-{r}", keys={r: k}), Bounds(0)))
        for op in ("cancel", "replace", "worker"):
            out.append((Beside(name=f"keys-{k[:20]}-{op}", names=("a", "a:b"), op=op, at=0.75, keys={r: f"{k}{i}" for i, r in enumerate(ROLES)}), Bounds(0)))
    for k in INTERNAL:
        for r in ROLES if deep else ("parked", "perp", "moved"): out.append((Beside(name=f"internal-{k}-{r}", keys={r: k}), Bounds(0)))
    return out
