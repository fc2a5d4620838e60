"""C21: finished tasks leave nothing behind."""
from docket import Cooldown, Debounce, Progress, ExponentialRetry, Timeout, Depends
from docket.dependencies import Progress
from props.keyed import *
from mc.explore import Bounds
from props import keyseq
from mc.store import Stream
from typing import Annotated

RULE = ("every call of the API, and a worker's death, at every operation of the life of a task of every kind (plain, failing, retried, limited, rate limited, cooled down, debounced, "
        "reporting progress, replacing itself), with placements of holds; then all keys of the store, after the retention, against those of a docket that never had a task")
BASE = {}


class Left(Keyed):
    poll = 0.4
    hold_limit = 1.0
    window = 3.0
    settle = 5.0
    redelivery = 2.0
    ttl = 3.0
    heartbeat = 1.0
    victims = ()
    workers = 2
    concurrency = 3
    warm_runs = 999
    wait = 3.5              # after the workers have stopped

    def allow_crash(self, op, env): return op.proc in self.victims

    def tasks(self, env):
        out = super().tasks(env)

        async def progress(name: str, tag: str, secs: float, p: Progress = Progress()):
            async with body(env, name, tag):
                await p.set_total(2)
                await p.increment()
                await asyncio.sleep(secs)
                await p.set_message("x")
            return tag

        async def cooled(name: str, tag: str, secs: float, c=Cooldown(S(1.0))):
            async with body(env, name, tag): await asyncio.sleep(secs)
            return tag

        async def debounced(name: str, tag: str, secs: float, c=Debounce(S(0.5))):
            async with body(env, name, tag): await asyncio.sleep(secs)
            return tag

        async def timed(name: str, tag: str, secs: float, c: Timeout = Timeout(S(0.2))):
            async with body(env, name, tag): await asyncio.sleep(secs)
            return tag

        async def limretry(name: str, tag: str, secs: float, limit: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=1), r: Retry = Retry(attempts=2, delay=S(0.5))):
            async with body(env, name, tag):
                await asyncio.sleep(secs)
                if r.attempt < 2: raise ValueError("again")
            return tag

        async def param(name: Annotated[str, ConcurrencyLimit(1)], tag: str, secs: float):
            async with body(env, name, tag): await asyncio.sleep(secs)
            return tag

        async def perp(name: str, tag: str, secs: float, p: Perpetual = Perpetual(every=S(0.5))):
            async with body(env, name, tag):
                await asyncio.sleep(secs)
                n = env.data.__dict__.setdefault("perp", [0])
                n[0] += 1
                if n[0] > 2: p.cancel()
            return tag

        async def badarg(name: str, tag: str, secs: float, x: str = Depends(self.broken)):
            async with body(env, name, tag): pass
        more = dict(progress=progress, cooled=cooled, debounced=debounced, timed=timed, limretry=limretry, perp=perp, param=param, badarg=badarg)
        out.update({k: v for k, v in more.items() if k in self.functions})
        return out

    @staticmethod
    async def broken(): raise RuntimeError("no")

    async def main(self, env):
        async with self.client(env) as d:
            env.data.client = d
            self.watch(env)
            ws = {f"w{n + 1}": self.start_worker(env, f"w{n + 1}") for n in range(self.workers)}
            await asyncio.sleep(self.explore_from)
            env.explore = True
            t0 = env.t()
            for item in self.plan:
                at, op = item[0], item[1:]
                if t0 + at > env.t(): await asyncio.sleep(t0 + at - env.t())
                await self.do(env, d, *op)
            await asyncio.sleep(max(0, t0 + self.window - env.t()))
            env.explore = False
            if all(t.done() for t in ws.values()): ws["w9"] = self.start_worker(env, "w9")
            await asyncio.sleep(self.settle)
            env.data.states = {k: self.state(env, k) for k in self.keys}
            for t in ws.values(): t.cancel()
            await asyncio.sleep(0.2 if self.ttl else self.wait)
            env.data.now = self.look(env)
            await asyncio.sleep(self.wait)
            env.data.late = self.look(env)
            return True

    def look(self, env):
        """Every key in the store: its size, and the seconds it has to live."""
        out = {}
        for k in keyspace(env):
            v = env.store.d[k]
            x = env.store.exp.get(k)
            out[k.decode()] = (len(v.e) if isinstance(v, Stream) else 1 if isinstance(v, bytes) else len(v), None if x is None else round(x - env.store.now(), 3))
        return out

    async def do(self, env, d, op, key, *a):
        if op != "strike": return await super().do(env, d, op, key, *a)
        await d.strike(d.fns[key])

    def check(self, env):
        out, base = [], baseline(self.ttl)
        n = self.calls(env)
        ctx = f"calls {[(c['op'], c['key'], c['t0'], c['res']) for c in n]}; records {env.data.hist}; runs { {k: [(r['proc'], r['tag'], r['start'], r['end'], r['exc']) for r in self.runs(env, k)] for k in self.keys} }"
        if any(s in LIVE for s in env.data.states.values()): return []        # (a task that never finishes is another property's matter)
        for k, (size, ttl) in sorted(env.data.now.items()):
            if base.get(k, (0,))[0] == size or "strikes" in k: continue
            if ttl is None or ttl > self.ttl + 0.5: out.append((f"stays-{self.generic(k)}", f"when all is over, {k} stays {'for ever' if ttl is None else f'{ttl} s'} (size {size}): {ctx}"))
            elif not self.ttl: out.append((f"stays-{self.generic(k)}", f"with no retention, {k} stays {ttl} s (size {size}): {ctx}"))
        return out

    def generic(self, k):
        for x in sorted(self.keys, key=len, reverse=True):
            if k.endswith(":" + x): k = k[:-len(x)] + "<key>"
        return k

    def covered(self, env):
        return {f"{self.functions[0]}: {'/'.join(str(s) for s in env.data.states.values())}"}


def baseline(ttl):
    if ttl not in BASE:
        saved = sim.burner.ENV if hasattr(sim, "burner") else None
        env = sim.run(Left(name="base", functions=("job",), ttl=ttl, plan=[], keys=(), victims=()))
        BASE[ttl] = env.data.now
    return BASE[ttl]


KINDS = ("job", "fails", "flaky", "limited", "rated", "cooled", "debounced", "progress", "timed", "limretry", "param", "perp", "badarg")


def work(tier):
    deep = tier == "thorough"
    out = keyseq.family(("C21",), tier, only=None if deep else "short|nottl")
    for f in KINDS:
        plan = [(0, "add", "k", f, "a", 0, 0.3), (0.1, "add", "k2", f, "a", 0, 0.3)]
        kw = dict(functions=(f,), plan=plan, keys=("k", "k2"))
        for ttl in (30.0, 0.0):
            for name, act in (("cancel", (("cancel", "k2"),)), ("replace", (("replace", "k2", f, "x", 0.3, 0.2),)), ("clear", (("clear", "*"),)), ("strike", (("strike", f),))):
                if not deep and (ttl == 0) != (name in ("cancel", "clear")): continue
                out.append((Left(name=f"{name}-{f}-{ttl:.0f}", ttl=ttl, acts={name: act}, **kw), Bounds(1, inject=1)))
                if deep: out.append((Left(name=f"{name}-hold-{f}-{ttl:.0f}", ttl=ttl, acts={name: act}, **kw), Bounds(2, m=1, inject=1, hold=1)))
            if deep or ttl == 0: out.append((Left(name=f"death-{f}-{ttl:.0f}", ttl=ttl, victims=("w1", "w2"), settle=9.0, **kw), Bounds(1 if not deep else 2, m=1, hold=1 if deep else 0, crash=1)))
            if ttl == 0 and (deep or f in ("limited", "progress")): out.append((Left(name=f"death-cancel-{f}", ttl=ttl, victims=("w1",), acts={"cancel": (("cancel", "k"),)}, settle=12.0, wait=6.0, **kw), Bounds(2, m=0, crash=1, inject=1)))
            if deep or ttl > 0: out.append((Left(name=f"hold-{f}-{ttl:.0f}", ttl=ttl, **kw), Bounds(1 if not deep else 2, m=1, hold=1 if not deep else 2)))
    return out
