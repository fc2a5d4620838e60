"""Shared world for the properties of keyed tasks: one key goes through its life while a user calls the docket API at every point."""
from docket import Retry, ConcurrencyLimit, RateLimit, Perpetual
from docket.execution import ExecutionCancelled
from mc.world import *

LIVE = ("scheduled", "queued", "running")
FINAL = ("completed", "failed", "cancelled")


class Keyed(World):
    poll = 0.5
    redelivery = 10.0
    hold_limit = 2.0
    workers = 1
    window = 4.0
    settle = 8.0
    explore_from = 0.5
    plan = ()               # (at, op, args...) performed by the main client
    acts = {}               # injectable: name -> (op, args...)
    explore_end = None
    retry_delay = 1.0
    attempts = 2

    def tasks(self, env):
        n, delay = self.attempts, self.retry_delay

        async def job(name: str, tag: str, secs: float):
            async with body(env, name, tag):
                await asyncio.sleep(secs)
            return tag

        async def fails(name: str, tag: str, secs: float):
            async with body(env, name, tag):
                await asyncio.sleep(secs)
                raise ValueError(tag)

        async def flaky(name: str, tag: str, secs: float, retry: Retry = Retry(attempts=n, delay=S(delay))):
            async with body(env, name, tag):
                await asyncio.sleep(secs)
                if retry.attempt < n: raise ValueError("again")
            return tag

        async def limited(name: str, tag: str, secs: float, limit: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=1)):
            async with body(env, name, tag):
                await asyncio.sleep(secs)
            return tag

        async def cleanup(name: str, tag: str, secs: float):
            async with body(env, name, tag):
                try:
                    await asyncio.sleep(secs)
                finally:
                    env.ev("cleanup", name, tag)
            return tag

        async def rated(name: str, tag: str, secs: float, r: RateLimit = RateLimit(1, per=S(2.0))):
            async with body(env, name, tag):
                await asyncio.sleep(secs)
            return tag
        fns = dict(job=job, fails=fails, flaky=flaky, limited=limited, cleanup=cleanup, rated=rated)
        return {k: v for k, v in fns.items() if k in self.functions}

    functions = ("job",)

    def state(self, env, key):
        e = env.instant(env.data.client.get_execution(key))
        return e.state.value if e is not None else None

    async def do(self, env, d, op, key, fn=None, tag=None, delay=0, secs=0.2):
        """One API call, bracketed by events (and by the recorded state of the key on either side)."""
        env.data.__dict__.setdefault("calls", [0])[0] += 1
        n = env.data.calls[0]
        env.ev("call", n, op, key, tag, self.state(env, key), len(env.data.hist))
        r = None
        if op in ("add", "replace"):
            when = utc() + S(delay) if delay else None
            if op == "add": e = await d.add(d.fns[fn], key=key, when=when)(key, tag, secs)
            else: e = await d.replace(d.fns[fn], key=key, when=when or utc())(key, tag, secs)
            r = e.disposition.name
        elif op == "cancel": await d.cancel(key)
        elif op == "clear": r = await d.clear()
        env.ev("ret", n, op, key, tag, self.state(env, key), len(env.data.hist), r)

    def watch(self, env):
        """Record every change of the keys' recorded states, as a client reading after each operation would see them."""
        hist = env.data.hist = []
        last = {k: None for k in self.keys}

        def hook(op):
            if not any(w for _, _, w in op.acc): return
            for k in self.keys:
                s = self.state(env, k)
                if s != last[k]:
                    last[k] = s
                    hist.append((env.t(), k, s))
        env.step_hooks.append(hook)

    async def user(self, env, at, ops, name):
        async with self.client(env) as d:
            await asyncio.sleep(max(0, at - env.t()))
            for op in ops: await self.do(env, d, *op)

    async def main(self, env):
        async with self.client(env) as d:
            env.data.client = d
            self.watch(env)
            for n in range(self.workers): self.start_worker(env, f"w{n + 1}")
            await asyncio.sleep(self.explore_from)
            env.explore = True
            t0 = env.t()
            for item in self.plan:
                at, op = item[0], item[1:]
                if t0 + at > env.t(): await asyncio.sleep(t0 + at - env.t())
                await self.do(env, d, *op)
            for i, (at, ops) in enumerate(self.users): env.spawn(f"u{i}", self.user(env, t0 + at, ops, f"u{i}"))
            await asyncio.sleep(max(0, t0 + self.window - env.t()))
            env.explore = False
            if not self.workers: self.start_worker(env, 'w')
            await asyncio.sleep(self.settle)
            out = {}
            for k in self.keys: out[k] = self.state(env, k)
            await self.probe(env, d, out)
            return out

    users = ()
    keys = ("k",)

    async def probe(self, env, d, out): pass

    def injections(self): return sorted(self.acts)

    async def inject(self, env, which):
        d = env.data.client
        for op in self.acts[which]: await self.do(env, d, *op)

    # ---- reading the history
    def calls(self, env):
        out, op = [], {}
        for e in env.events:
            if e[2] == "call":
                op[e[3]] = c = {"n": e[3], "op": e[4], "key": e[5], "tag": e[6], "before": e[7], "t0": e[0], "t1": None,
                                "h0": e[8], "h1": len(env.data.hist), "after": None, "res": None}
                out.append(c)
            elif e[2] == "ret":
                c = op[e[3]]
                c.update(t1=e[0], after=e[7], h1=e[8], res=e[9])
        return out

    def during(self, env, c):
        """The recorded states of the call's key from its invocation to its return."""
        return [c["before"]] + [s for _, k, s in env.data.hist[c["h0"]:c["h1"]] if k == c["key"]]

    def runs(self, env, key, tag=None):
        """Runs of the key: dicts with start, end (None while unfinished), exc, tag, proc."""
        out = {}
        for e in env.events:
            if e[2] == "start" and e[3] == key and (tag is None or e[5] == tag):
                out[e[4]] = {"proc": e[1], "start": e[0], "end": None, "exc": None, "tag": e[5], "n": e[4]}
            elif e[2] == "finish" and e[3] == key and e[4] in out:
                out[e[4]].update(end=e[0], exc=e[5])
        return list(out.values())
