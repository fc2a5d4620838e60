"""C25: run_until_finished and run_at_most stop exactly when they should."""
import itertools
from props.keyed import *
from mc.explore import Bounds

RULE = ("one or two workers told to run until finished over tasks of every kind (ready, future, scheduling others, retried, parked, rate limited, perpetual), at every placement of holds, of calls of the API "
        "and of another worker's death; and run_at_most for every small bound over perpetual, retried and self-adding tasks")


class Finish(Keyed):
    poll = 0.4
    hold_limit = 0.9
    redelivery = 3.0
    explore_from = 0.0
    limit = 40.0
    modes = ("finish",)         # of the workers
    victims = ()
    arg = None
    starts_at = 0.3
    natural = None
    clears = False

    def allow_crash(self, op, env): return op.proc in self.victims

    def tasks(self, env):
        out = super().tasks(env)

        async def spawner(name: str, tag: str, secs: float):
            async with body(env, name, tag):
                await asyncio.sleep(secs)
                d = env.data.wd[sim.PROC.get()]
                left = {"s": "s1", "s1": "s2"}.get(name)
                if left:
                    await d.add(d.fns["spawner"], key=left, when=utc() + S(0.5) if left == "s2" else None)(left, tag, secs)

        async def perp(name: str, tag: str, secs: float, p: Perpetual = Perpetual(every=S(0.3))):
            async with body(env, name, tag):
                await asyncio.sleep(secs)
                if self.natural and len(starts(env, name)) >= self.natural: p.cancel()

        async def perpfail(name: str, tag: str, secs: float, p: Perpetual = Perpetual(every=S(0.3))):
            async with body(env, name, tag):
                await asyncio.sleep(secs)
                raise ValueError("x")

        async def again(name: str, tag: str, secs: float):
            async with body(env, name, tag):
                await asyncio.sleep(secs)
                d = env.data.wd[sim.PROC.get()]
                await d.replace(d.fns["again"], key=name, when=utc() + S(0.2))(name, tag, secs)

        async def forever(name: str, tag: str, secs: float, r: Retry = Retry(attempts=None, delay=S(0.2))):
            async with body(env, name, tag):
                await asyncio.sleep(secs)
                raise ValueError("again")
        more = dict(spawner=spawner, perp=perp, perpfail=perpfail, again=again, forever=forever)
        out.update({k: v for k, v in more.items() if k in self.functions})
        return out

    async def run_worker(self, env, name, mode="forever", arg=None, **kw):
        async with self.client(env) as d:
            env.data.__dict__.setdefault("wd", {})[name] = d
            async with self.worker(d, name, **kw) as w:
                try:
                    if mode == "forever": await w.run_forever()
                    elif mode == "finish": await w.run_until_finished()
                    else: await w.run_at_most(arg)
                    env.ev("returned", name, {k: self.state(env, k) for k in self.keys}, len(env.data.hist))
                except asyncio.CancelledError: raise
                except BaseException as e:
                    env.ev("worker-died", name, repr(e))
                    raise

    async def main(self, env):
        async with self.client(env) as d:
            env.data.client = d
            self.watch(env)
            env.explore = True
            for item in self.plan:
                if item[0] > self.starts_at: break
                at, op = item[0], item[1:]
                if at > env.t(): await asyncio.sleep(at - env.t())
                await self.do(env, d, *op)
            await asyncio.sleep(max(0, self.starts_at - env.t()))
            ts = [self.start_worker(env, f"w{n + 1}", mode=m, arg=self.arg) for n, m in enumerate(self.modes)]
            for item in self.plan:
                if item[0] <= self.starts_at: continue
                at, op = item[0], item[1:]
                if at > env.t(): await asyncio.sleep(at - env.t())
                await self.do(env, d, *op)
            done = [t for t, m in zip(ts, self.modes) if m != "forever"]
            await asyncio.wait(done, timeout=self.limit)
            env.explore = False
            await asyncio.sleep(1.5)
            env.data.end = {k: self.state(env, k) for k in self.keys}
            return True

    def check(self, env):
        out = []
        calls = self.calls(env)
        dead = [e[1] for e in evs(env, "crash")]
        ctx = f"calls {[(c['op'], c['key'], c['t0'], c['res']) for c in calls]}; records {env.data.hist}; runs { {k: [(r['proc'], r['tag'], r['start'], r['end'], r['exc']) for r in self.runs(env, k)] for k in self.keys} }; {evs(env, 'returned', 'crash', 'worker-died')}"
        if evs(env, "worker-died"): out.append(("worker-died", f"a worker died: {ctx}"))
        ret = {e[1]: e for e in evs(env, "returned")}
        last = max([t for t, _, _ in env.data.hist] + [self.starts_at])
        for n, m in enumerate(self.modes):
            w = f"w{n + 1}"
            if m == "forever" or w in dead: continue
            if w not in ret:
                out.append((f"never-returns-{m}", f"{w} has not returned {env.t() - last:.1f} s after the last change: {ctx}"))
                continue
            t, _, _, states, h = ret[w][0], 0, 0, ret[w][4], ret[w][5]
            # at some moment before it returned (it takes a moment to shut down) nothing was live
            now, since = {k: None for k in self.keys}, None         # since: from when on something has been live without a break
            for ht, k, st in env.data.hist[:h]:
                now[k] = st
                if not any(x in LIVE for x in now.values()): since = None
                elif since is None: since = ht
            if since is not None and (t - since > 0.7 + self.hold_limit * env.nheld or since <= self.starts_at):
                out.append((f"{m}-returns-early-{'-'.join(sorted({s for s in states.values() if s in LIVE}))}", f"{w} returned at {t} while {states}: {ctx}"))
            # it returns soon after there is nothing left
            over = [x for x in env.data.hist if x[0] <= t]
            quiet = over[-1][0] if over else self.starts_at
            if t - max(quiet, self.starts_at) > self.slack + self.hold_limit * env.nheld + (2 * self.redelivery if dead else self.redelivery if 'limited' in self.functions else 0): out.append((f"{m}-returns-late", f"{w} returned at {t}, {t - quiet:.1f} s after the last change: {ctx}"))
        if self.clears or len([m for m in self.modes if m != "forever"]) != len(ret): return out
        # everything submitted has run
        if "most" not in self.modes:
            for c in calls:
                if c["op"] in ("add", "replace") and c["res"] == "SCHEDULED":
                    if [x for x in calls if x["op"] in ("cancel", "replace", "clear") and x["key"] in (c["key"], "*") and (x["t1"] is None or x["t1"] >= c["t0"]) and x is not c]: continue
                    if c["t1"] is None or all(c["t1"] > r[0] - 0.5 for r in ret.values()): continue
                    if not self.runs(env, c["key"], c["tag"]): out.append(("did-not-run", f"{c['key']!r} never ran: {ctx}"))
        else:
            for w in ret:
                for k, n in self.arg.items():
                    got = [r for r in self.runs(env, k) if r["proc"] == w]
                    if len(got) > n: out.append(("most-exceeded", f"{k!r} ran {len(got)} times, at most {n} were allowed: {ctx}"))
                    want = min(n, self.natural or n)
                    if len(self.modes) == 1 and len(got) < want and not env.nheld and self.full: out.append(("most-short", f"{k!r} ran {len(got)} times instead of {want}: {ctx}"))
            for k in self.keys:
                if k in self.arg: continue
                if not [r for r in self.runs(env, k) if r["end"] is not None]: out.append(("did-not-run", f"{k!r} never ran: {ctx}"))
        return out

    slack = 2.5
    full = True

    def covered(self, env):
        return {f"{e[1]} returned with {len(starts(env))} runs" for e in evs(env, "returned")}


class Rounds(World):
    """One worker is told to run again and again, with other bounds each time: every round is bounded by its own alone."""
    poll = 0.2
    rounds = ()

    def tasks(self, env):
        async def perp(name, p: Perpetual = Perpetual(every=S(0.25))):
            async with body(env, name): await asyncio.sleep(0.1)
        async def plain(name):
            async with body(env, name): await asyncio.sleep(0.1)
        return dict(perp=perp, plain=plain)

    async def main(self, env):
        self.bad = []
        async with self.client(env) as d:
            async with self.worker(d, "w1") as w:
                for n, what in enumerate(self.rounds):
                    before = {k: len(starts(env, k)) for k in "kl"}
                    for k in "kl":
                        fn = "plain" if what == "finish" or what[0] == "most" and k not in what[1] else "perp"
                        e = await d.add(d.fns[fn], key=k)(k)
                        if e.disposition.name != "SCHEDULED": self.bad.append(("refused", f"round {n} of {self.rounds}: add of {k} reported {e.disposition.name}"))
                    t = asyncio.create_task(w.run_until_finished() if what == "finish" else w.run_at_most(what[1]))
                    if what[0] == "cut":
                        await asyncio.sleep(0.55)
                        t.cancel()
                    done, _ = await asyncio.wait({t}, timeout=30)
                    if not done:
                        self.bad.append(("never-returns", f"round {n} of {self.rounds}"))
                        t.cancel()
                        return
                    if not t.cancelled() and t.exception(): self.bad.append(("raised", f"round {n} of {self.rounds}: {t.exception()!r}"))
                    for k in "kl":
                        ran = len(starts(env, k)) - before[k]
                        want = 1 if what == "finish" else what[1].get(k, 1)
                        if what[0] == "cut" and ran > want or what[0] != "cut" and ran != want: self.bad.append(("count", f"round {n} of {self.rounds}: {k} ran {ran} times"))
                    for k in "kl": await d.cancel(k)
                    if self.bad: return

    def check(self, env): return self.bad


def work(tier):
    deep = tier == "thorough"
    out = []
    mixes = {
        "ready": (("job",), [(0, "add", "k", "job", "a", 0, 0.3), (0, "add", "f", "job", "a", 1.2, 0.2)], ("k", "f")),
        "spawner": (("spawner",), [(0, "add", "s", "spawner", "a", 0, 0.2)], ("s", "s1", "s2")),
        "flaky": (("flaky", "fails"), [(0, "add", "k", "flaky", "a", 0, 0.2), (0, "add", "f", "fails", "a", 0.3, 0.2)], ("k", "f")),
        "parked": (("limited",), [(0, "add", "h", "limited", "a", 0, 0.5), (0, "add", "k", "limited", "a", 0, 0.3), (0, "add", "l", "limited", "a", 0, 0.3)], ("h", "k", "l")),
        "rated": (("rated",), [(0, "add", "h", "rated", "a", 0, 0.1), (0, "add", "k", "rated", "a", 0, 0.1)], ("h", "k")),
        "perp": (("perp", "job"), [(0, "add", "k", "perp", "a", 0, 0.1), (0, "add", "f", "job", "a", 0.4, 0.2)], ("k", "f")),
        "empty": (("job",), [], ("k",)),
        "late": (("job",), [(0, "add", "k", "job", "a", 0, 0.6), (0.5, "add", "f", "job", "a", 0, 0.3), (0.6, "replace", "g", "job", "a", 0.4, 0.3)], ("k", "f", "g")),
    }
    for name, (fns, plan, keys) in mixes.items():
        for modes, conc in ((("finish",), 1), (("finish",), 3), (("finish", "finish"), 1), (("finish", "forever"), 2)):
            if not deep and (modes, conc) == (("finish",), 1) and name in ("rated", "empty"): continue
            kw = dict(functions=fns, plan=plan, keys=keys, modes=modes, concurrency=conc, natural=3)
            n = f"{name}-{'-'.join(modes)}-{conc}"
            out.append((Finish(name=f"hold-{n}", **kw), Bounds(1 if not deep else 2, m=2, hold=1 if not deep else 2)))
            if len(modes) > 1 and (deep or name in ("ready", "parked", "flaky")): out.append((Finish(name=f"death-{n}", victims=("w2",), **kw), Bounds(1, crash=1)))
            if name in ("empty", "late") or not deep and len(modes) > 1: continue
            first = plan[0][2]
            acts = {"cancel": (("cancel", plan[-1][2]),), "replace": (("replace", plan[-1][2], plan[-1][3], "x", 0.5, 0.2),), "clear": (("clear", "*"),), "more": (("add", "new", fns[-1], "x", 0.4, 0.2),)}
            for a, ops in acts.items():
                if not deep and conc == 3 and a in ("clear", "more"): continue
                kw2 = dict(kw, keys=keys + (("new",) if a == "more" else ()), clears=a == "clear")
                out.append((Finish(name=f"{a}-{n}", acts={a: ops}, **kw2), Bounds(1, inject=1)))
    for fn, more in (("perp", {}), ("perpfail", {}), ("again", {}), ("forever", {}), ("perp", {"natural": 2}), ("flaky", {"attempts": 3, "natural": 3, "retry_delay": 0.3}), ("job", {"natural": 1})):
        for n in (1, 2, 3):
            for conc in (1, 3):
                kw = dict(functions=(fn, "job"), plan=[(0, "add", "k", fn, "a", 0, 0.1), (0, "add", "f", "job", "a", 0.5, 0.2)], keys=("k", "f"), modes=("most",), arg={"k": n}, concurrency=conc, **more)
                if not deep and conc == 3 and n == 2: continue
                out.append((Finish(name=f"most-{fn}-{more.get('natural')}-{n}-{conc}", **kw), Bounds(1 if n > 1 or deep else 0, m=2, hold=1)))
    kinds = ("finish", ("most", {"k": 1}), ("most", {"k": 2, "l": 1}), ("most", {"l": 2}), ("cut", {"k": 3, "l": 2}), ("cut", {"k": 1, "l": 9}))
    for n, rounds in enumerate(itertools.product(kinds, repeat=2 if not deep else 3)): out.append((Rounds(name=f"rounds-{n}", rounds=rounds), Bounds(0)))
    two = dict(functions=("perp", "again"), plan=[(0, "add", "k", "perp", "a", 0, 0.1), (0, "add", "f", "again", "a", 0, 0.1)], keys=("k", "f"), modes=("most",))
    for a, b in itertools.product((1, 2, 3), repeat=2): out.append((Finish(name=f"most-two-{a}-{b}", arg={"k": a, "f": b}, **two), Bounds(0 if not deep else 1, m=2, hold=1)))
    out.append((Finish(name="most-0", arg={"k": 0, "f": 0}, full=False, **two), Bounds(0)))
    for fn in ("perp", "again", "job"):
        for ops in ((("replace", "k", fn, "x", 0.3, 0.1),), (("cancel", "k"),), (("cancel", "k"), ("add", "k", fn, "x", 0.2, 0.1))):
            out.append((Finish(name=f"most-{fn}-{'-'.join(o[0] for o in ops)}", functions=(fn, "job"), plan=[(0, "add", "k", fn, "a", 0, 0.1), (0, "add", "f", "job", "a", 0.5, 0.2)], keys=("k", "f"),
                               modes=("most",), arg={"k": 2}, full=False, acts={"x": ops}), Bounds(1, inject=1)))
    return out
