"""World for the concurrency limit: tasks with concurrency keys on several workers, with users cancelling, replacing and adding around them."""
from typing import Annotated
from docket import ConcurrencyLimit, Retry, Perpetual
from mc.world import *
from mc.explore import Bounds


class Limits(World):
    poll = 0.4
    redelivery = 3.0
    hold_limit = 0.6
    workers = 2
    slots = 10
    limit = 1
    form = "default"
    window = 2.5
    settle = 6.0
    begin = 0.5
    plan = ()               # (at, op, key, function, conc, secs): op in add, later (0.5 s), replace, cancel
    acts = {}
    rescue = False
    victims = ()
    keys_extra = ()

    def tasks(self, env):
        n = self.limit

        async def go(name, tag, conc, secs):
            async with body(env, name, conc, tag):
                await asyncio.sleep(secs)
            return tag
        fns = {}
        if self.form == "default":
            async def lim(name: str, tag: str, conc: str, secs: float, c: ConcurrencyLimit = ConcurrencyLimit("conc", n)): await go(name, tag, conc, secs)

            async def flaky(name: str, tag: str, conc: str, secs: float, c: ConcurrencyLimit = ConcurrencyLimit("conc", n), r: Retry = Retry(attempts=2, delay=S(0.3))):
                await go(name, tag, conc, secs)
                if r.attempt == 1: raise ValueError("again")
        elif self.form == "annotated":
            async def lim(name: str, tag: str, conc: Annotated[str, ConcurrencyLimit(n)], secs: float): await go(name, tag, conc, secs)

            async def flaky(name: str, tag: str, conc: Annotated[str, ConcurrencyLimit(n)], secs: float, r: Retry = Retry(attempts=2, delay=S(0.3))):
                await go(name, tag, conc, secs)
                if r.attempt == 1: raise ValueError("again")
        else:
            async def lim(name: str, tag: str, conc: str, secs: float, c: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=n)): await go(name, tag, conc, secs)

            async def flaky(name: str, tag: str, conc: str, secs: float, c: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=n), r: Retry = Retry(attempts=2, delay=S(0.3))):
                await go(name, tag, conc, secs)
                if r.attempt == 1: raise ValueError("again")

        async def free(name: str, tag: str, conc: str, secs: float): await go(name, tag, conc, secs)

        async def chain(name: str, tag: str, conc: str, secs: float, c: ConcurrencyLimit = ConcurrencyLimit("conc", n), p: Perpetual = Perpetual(every=S(0.7))):
            env.data.chain = getattr(env.data, "chain", 0) + 1
            if env.data.chain >= 3: p.cancel()
            await go(name, tag, conc, secs)

        async def cleanup(name: str, tag: str, conc: str, secs: float, c: ConcurrencyLimit = ConcurrencyLimit("conc", n)):
            async with body(env, name, conc, tag):
                try: await asyncio.sleep(secs)
                finally: await asyncio.sleep(0.5)
        return dict(lim=lim, flaky=flaky, free=free, chain=chain, cleanup=cleanup)

    def allow_crash(self, op, env): return op.proc in self.victims

    def state(self, env, key):
        e = env.instant(env.data.client.get_execution(key))
        return e.state.value if e is not None else None

    async def do(self, env, d, op, key, fn="lim", conc="x", secs=0.4):
        env.data.tags = tag = getattr(env.data, "tags", 0) + 1
        conc = conc if self.form != "task" else "x"
        env.ev("call", tag, op, key, fn, conc, self.state(env, key))
        when = None
        if op == "later": when = utc() + S(0.5)
        if op in ("add", "later"):
            e = await d.add(d.fns[fn], key=key, when=when)(key, tag, conc, secs)
            r = e.disposition.name
        elif op == "replace":
            await d.replace(d.fns[fn], key=key, when=utc())(key, tag, conc, secs)
            r = "SCHEDULED"
        elif op == "cancel":
            await d.cancel(key)
            r = None
        env.ev("ret", tag, op, key, fn, conc, r)

    async def main(self, env):
        async with self.client(env) as d:
            env.data.client = d
            for n in range(self.workers): self.start_worker(env, f"w{n + 1}", concurrency=self.slots)
            await asyncio.sleep(self.begin)
            env.explore = True
            for at, *op in self.plan:
                left = self.begin + at - env.t()
                if left > 0: await asyncio.sleep(left)
                await self.do(env, d, *op)
            await asyncio.sleep(max(0, self.begin + self.window - env.t()))
            env.explore = False
            if self.rescue: self.start_worker(env, "w9", concurrency=self.slots)
            await asyncio.sleep(self.settle)
            env.data.end = env.t()
            return {k: self.state(env, k) for k in sorted({o[2] for o in self.plan} | set(self.keys_extra))}

    def injections(self): return sorted(self.acts)
    def allow_inject(self, op, env): return True

    async def inject(self, env, which):
        for op in self.acts[which]: await self.do(env, env.data.client, *op)

    # ---- the history
    def history(self, env):
        """Runs (key, tag, conc, start, end, how), calls in order, deaths."""
        runs, calls, dead = {}, {}, {}
        for e in env.events:
            t, p, k = e[:3]
            if k == "start": runs[e[4]] = {"key": e[3], "conc": e[5], "tag": e[6], "start": t, "end": None, "exc": None, "proc": p, "died": False}
            elif k == "finish": runs[e[4]].update(end=t, exc=e[5])
            elif k == "crash":
                dead[p] = t
                for r in runs.values():
                    if r["proc"] == p and r["end"] is None: r.update(end=t, died=True)
            elif k == "call": calls[e[3]] = {"tag": e[3], "op": e[4], "key": e[5], "fn": e[6], "conc": e[7], "before": e[8], "t0": t, "t1": None, "res": None}
            elif k == "ret": calls[e[3]].update(t1=t, res=e[8])
        return list(runs.values()), list(calls.values()), dead

    def exceeded(self, env):
        runs, calls, dead = self.history(env)
        out = []
        for c in {r["conc"] for r in runs}:
            fn = {x["tag"]: x["fn"] for x in calls}
            mine = [r for r in runs if r["conc"] == c and fn[r["tag"]] != "free"]
            for r in mine:
                now = [q for q in mine if q["start"] <= r["start"] and (q["end"] is None or q["end"] > r["start"] or q is r)]
                now = [q for q in now if q is r or q["start"] < r["start"] or mine.index(q) < mine.index(r)]
                if len(now) > self.limit:
                    out.append(("exceeded", f"at {r['start']} {len(now)} tasks with the concurrency key {c!r} ran, the limit is {self.limit}: "
                                + ", ".join(f"{q['key']} on {q['proc']} {q['start']}-{q['end']}" for q in now) + (f"; deaths {dead}" if dead else "")))
                    break
        return out

    def waits(self, env):
        """Intervals in which a task was due to run and did not: (key, tag, conc, from, to, limited)."""
        runs, calls, dead = self.history(env)
        out = []
        end = env.data.end
        for x in calls:
            if x["op"] == "cancel" or x["res"] != "SCHEDULED": continue
            a = x["t1"] + (0.5 if x["op"] == "later" else 0)
            stop = min([y["t0"] for y in calls if y["key"] == x["key"] and y["op"] in ("cancel", "replace") and (y["t1"] or end) >= x["t0"] and y is not x] + [end])
            mine = sorted((r for r in runs if r["tag"] == x["tag"]), key=lambda r: r["start"])
            for r in mine:
                out.append((x, a, r["start"]))
                if r["died"]: a = r["end"] + self.redelivery
                elif x["fn"] == "flaky" and r is mine[0] and r["exc"] is None: a = r["end"] + 0.3 if r["end"] else end
                elif x["fn"] == "chain" and r["end"] is not None and r is not mine[-1]: a = max(r["end"], r["start"] + 0.7)
                else: a = None
                if a is None: break
            if a is not None: out.append((x, a, stop))
        return [(x, a, b) for x, a, b in out if b > a]

    def starved(self, env):
        runs, calls, dead = self.history(env)
        fn = {x["tag"]: x["fn"] for x in calls}
        out = []
        grace = 2 * self.poll + 0.3 + 2.5 * self.hold_limit * env.nheld
        if dead: grace += 2 * self.poll
        # a slot handed to a task that is cancelled or replaced on its way is offered again by the safeguard of those still waiting
        if [x for x in calls if x["op"] in ("cancel", "replace")]: grace += self.redelivery
        died = [r for r in runs if r["died"]]
        for x, a, b in self.waits(env):
            occupied = []
            for r in runs:
                e = r["end"] if r["end"] is not None else env.data.end
                if r["died"]: e += 2 * self.redelivery + self.poll
                if (r["conc"] == x["conc"] and fn[r["tag"]] != "free") or r["key"] == x["key"]: occupied.append((r["start"], e, r["key"] == x["key"]))
            if dead:        # an acquisition of a slot whose body never began leaves the slot too
                for p, t in dead.items(): occupied.append((t, t + 2 * self.redelivery + self.poll, True))
            cut = sorted({a, b} | {t for o in occupied for t in o[:2] if a < t < b})
            free = None
            for s, e in zip(cut, cut[1:]):
                act = [o for o in occupied if o[0] <= s and o[1] >= e]
                full = (x["fn"] != "free" and len(act) >= self.limit) or any(o[2] for o in act)
                if full: free = None
                else:
                    if free is None: free = s
                    if e - free > grace:
                        out.append((f"starved-{x['fn']}", f"{x['key']!r} (scheduled {x['t1']}, concurrency key {x['conc']!r}) did not run from {free:.3f} to {b:.3f} though a slot was free; "
                                    f"runs {[(r['key'], r['proc'], r['start'], r['end']) for r in runs]}" + (f"; deaths {dead}" if dead else "")))
                        break
        return out

    def times(self, env):
        """Each schedule that stands runs exactly once (at least once around deaths); those cancelled or replaced while parked never."""
        runs, calls, dead = self.history(env)
        out = []
        for x in calls:
            if x["op"] == "cancel" or x["res"] != "SCHEDULED": continue
            n = len([r for r in runs if r["tag"] == x["tag"]])
            want = {"flaky": 2, "chain": 3}.get(x["fn"], 1)
            later = [y for y in calls if y["key"] == x["key"] and y["op"] in ("cancel", "replace") and (y["t1"] or 1e9) >= x["t0"] and y is not x]
            started = [r for r in runs if r["tag"] == x["tag"]]
            if later:
                y = later[0]
                if y["t1"] is not None and y["t0"] >= x["t1"]:
                    late = [r for r in started if r["start"] > y["t1"] + 1e-6]
                    fresh = not [r for r in started if r["start"] <= y["t1"]]
                    if late and fresh and y["op"] == "replace":
                        out.append(("replaced-ran", f"{x['key']!r} was replaced at {y['t1']} while waiting, and the replaced schedule started at {late[0]['start']}"))
                    if late and fresh and y["op"] == "cancel" and y["before"] == "scheduled" and x["t1"] is not None and x["t1"] <= y["t0"]:
                        out.append(("cancelled-ran", f"{x['key']!r} was cancelled at {y['t1']} while waiting, and started at {late[0]['start']}"))
                if n > want and not dead: out.append((f"more-{x['fn']}", f"{x['key']!r} ran {n} times"))
            elif (n < want) or (n > want and not dead):
                out.append((f"{'lost' if n < want else 'more'}-{x['fn']}", f"{x['key']!r} ran {n} times, expected {want}; runs {[(r['key'], r['proc'], r['start'], r['end']) for r in runs]}"
                            + (f"; deaths {dead}" if dead else "")))
        return out

    def covered(self, env):
        out = set()
        runs, calls, dead = self.history(env)
        if any(w.name == "evalsha" for w in env.ops): pass
        for x, a, b in self.waits(env):
            if b - a > 0.1: out.add("waited")
        if dead: out.add("died")
        if any(r["died"] for r in runs): out.add("died-holding")
        return out
