"""C35: every run receives exactly the call that was accepted, and its own context."""
import dataclasses
import decimal
import enum
import inspect
import uuid
from docket import (ConcurrencyLimit, CurrentDocket, CurrentExecution, CurrentWorker, Docket, Execution, Perpetual, RateLimit, Retry, TaskArgument, TaskKey, Worker)
from mc.world import *
from mc.explore import Bounds

RULE = ("every signature and argument shape of a list through every way to a worker (at once, ahead, replaced, retried, parked, rate-limited, redelivered, perpetual...), all of "
        "them under way at once; and replacements, cancellations and clears at every operation of two keys' lives, with holds and worker deaths, no run and no "
        "record ever mixing two calls")


@dataclasses.dataclass
class Point:
    x: int
    y: list


class Color(enum.Enum):
    RED = 1


def canon(v):
    """A value as nested tuples, so that equal means: same type, same contents."""
    t = type(v).__name__
    if isinstance(v, dict): return (t, tuple((canon(k), canon(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)): return (t, tuple(map(canon, v)))
    if isinstance(v, (set, frozenset)): return (t, tuple(sorted(map(repr, map(canon, v)))))
    if isinstance(v, BaseException): return (t, canon(v.args))
    if dataclasses.is_dataclass(v) and not isinstance(v, type): return (t, tuple(canon(getattr(v, f.name)) for f in dataclasses.fields(v)))
    if inspect.isfunction(v): return (t, v(3))
    return (t, repr(v))


def values():
    u = datetime(2024, 2, 29, 23, 59, 59, 999999, tzinfo=timezone(timedelta(hours=-3, minutes=-30)))
    loop = [1]
    return [None, True, False, 0, -1, 2 ** 70, 0.1, float("inf"), float("nan"), "", "a", "é\u2603\x00\n", "1", b"", b"\xff\x00", (), (1,), [], [1, [2, {"a": (3,)}]], {}, {"b": 1, "a": 2}, {1: "x", (2,): None},
            {1, 2}, frozenset(), datetime(2024, 1, 1), u, timedelta(microseconds=1), uuid.UUID(int=5), decimal.Decimal("1.10"), Point(1, [2]), Color.RED, range(3), 1 + 2j,
            ValueError("x", 1), lambda n: n + 7, "x" * 70000, {"deep": [[[[{"k": b"v"}]]]]}, [loop, loop], ...]


SIGS = {
    "plain": "a, b=2, c='u'{kw}",
    "starred": "a=None, *more{nk}",
    "named": "a, *, b, c='u'{nk}",
    "extra": "a=None{kw}, **others",
    "posonly": "a, /, b=1{kw}, **others",
    "names": "key=1, when=2, docket=3, function=4, worker=5, args=6, kwargs=7, attempt=8, name=9{kw}",
    "none": "{kw0}",
}
SHAPES = {
    "plain": [((1,), {}), ((1, 3), {}), ((1,), {"c": "v"}), ((), {"c": 1, "a": 2}), ((1, 3, None), {})],
    "starred": [((), {}), ((1,), {}), ((1, 2, 3), {}), (([], (), {}), {})],
    "named": [((1,), {"b": 2}), ((), {"c": 0, "b": 1, "a": 2})],
    "extra": [((), {}), ((1,), {"z": 1, "y": 2}), ((), {"a": 1, "key": 2, "when": 3, "self": 4, "function": 5, "docket": 6, "execution": 7, "fn": 8})],
    "posonly": [((1,), {"a": 2}), ((1, 2), {"a": 3, "é": 4})],
    "names": [((), {}), ((1, 2, 3), {"name": 4}), ((), {"key": "k", "when": "w", "docket": "d", "function": "f", "worker": "w", "args": (1,), "kwargs": {"a": 1}, "attempt": 3})],
    "none": [((), {})],
}
DEPS = {"": "", "retry0": "Retry(attempts=3)", "retry": "Retry(attempts=3, delay=timedelta(seconds=0.3))", "parked": "ConcurrencyLimit(max_concurrent=1)",
        "rated": "RateLimit(2, per=timedelta(seconds=0.3))", "chain": "Perpetual(every=timedelta(seconds=0.4))", "chain2": "Perpetual(every=timedelta(seconds=0.4))"}
WAYS = {"at-once": "", "ahead": "", "past": "", "no-worker-yet": "", "replace": "", "replaced": "", "replaced-ahead": "", "again": "", "cancelled-before": "", "execution": "",
        "retry0": "retry0", "retry": "retry", "parked": "parked", "rated": "rated", "redelivered": "", "chain": "chain", "chain2": "chain2", "retry-redelivered": "retry"}


class Grid(World):
    """All the calls of the list, one way."""
    way = "at-once"
    concurrency = 200
    poll = 0.1
    max_ops = 10 ** 6
    max_time = 1e5
    redelivery = 2.0
    small = False

    def tasks(self, env):
        out = {}
        dep = DEPS[WAYS[self.way]]
        ctx = "_x: Execution = CurrentExecution(), _k: str = TaskKey(), _d: Docket = CurrentDocket(), _w: Worker = CurrentWorker()" + (f", _dep={dep}" if dep else "")

        async def run(name, args, x, k, d, w, dep=None):
            n = env.data.__dict__.setdefault("bodies", {})
            i = n[k] = n.get(k, 0) + 1
            before = canon(args)
            await asyncio.sleep(0.05 if not (self.way.endswith("redelivered") and w.name == "w1") else 9.0)
            env.data.__dict__.setdefault("got", []).append((name, k, i, before, canon(args), x.key, x.function_name, canon(x.args), canon(x.kwargs), d.name, w.name, x.attempt))
            if dep is not None and self.way == "chain2" and i == 1: dep.perpetuate(*env.data.second[k][0], **env.data.second[k][1])
            if self.way.startswith("chain") and i >= 3: dep.cancel()
            if self.way in ("retry", "retry0", "retry-redelivered") and x.attempt < 3: raise ValueError("again")

        for name, sig in SIGS.items():
            s = sig.format(kw=", *, " + ctx, nk=", " + ctx, kw0="*, " + ctx)
            ns = dict(run=run, Retry=Retry, ConcurrencyLimit=ConcurrencyLimit, RateLimit=RateLimit, Perpetual=Perpetual, timedelta=timedelta, CurrentExecution=CurrentExecution,
                      TaskKey=TaskKey, CurrentDocket=CurrentDocket, CurrentWorker=CurrentWorker, Execution=Execution, Docket=Docket, Worker=Worker)
            exec(f"async def {name}({s}):\n    l = dict(locals())\n    x, k, d, w, dep = l.pop('_x'), l.pop('_k'), l.pop('_d'), l.pop('_w'), l.pop('_dep', None)\n"
                 f"    await run({name!r}, l, x, k, d, w, dep)\n", ns)
            out[name] = ns[name]
        return out

    def cases(self):
        out = [(f, a, k) for f, ss in SHAPES.items() for a, k in ss]
        if not self.small: out += [("plain", (v,), {}) for v in values()] + [("extra", (), {"v": v}) for v in values()] + [("starred", (v, v), {}) for v in values()[::4]]
        return out

    KEYS = ["k", "key with space", "ünï☃", "a:b:c", "k*", "k?[x]", "{k}", "k/../k", "%(k)s", "k'\"", "-", "0"]

    def expected(self, f, a, k):
        """The locals of the body: the call bound to the signature, without the dependencies."""
        ns = {}
        exec(f"def f({SIGS[f].format(kw='', nk='', kw0='')}): return locals()", ns)
        return canon(ns["f"](*a, **k))

    async def main(self, env):
        way = self.way
        self.bad = []
        env.data.got, env.data.second = [], {}
        cases = self.cases()
        keys = [f"{self.KEYS[i % len(self.KEYS)]}-{i}" if i >= len(self.KEYS) else self.KEYS[i] for i in range(len(cases))]
        async with self.client(env) as d:
            t1 = None if way == "no-worker-yet" else self.start_worker(env, "w1")
            await asyncio.sleep(0.3)
            execs = []
            for i, (k, (f, a, kw)) in enumerate(zip(keys, cases)):
                fn = d.fns[f] if i % 2 else f           # by function or by name
                oa, okw = SHAPES[f][(i + 1) % len(SHAPES[f])]
                if way in ("replaced", "replaced-ahead"): await d.add("plain", key=k, when=utc() + S(60))("other", b="other")
                if way == "cancelled-before":
                    await d.add("plain", key=k, when=utc() + S(60))("other", b="other")
                    await d.cancel(k)
                if way == "again":
                    await d.add(d.fns[f], key=k)(*oa, **okw)
                    await asyncio.sleep(0.2)
                if way == "chain2": env.data.second[k] = (oa, {x: v for x, v in okw.items() if x != "self"})
                when = {"ahead": utc() + S(0.5), "past": utc() - S(100), "replaced-ahead": utc() + S(0.5), "retry-redelivered": utc() + S(0.1)}.get(way)
                if way in ("replace", "replaced", "replaced-ahead"): e = await d.replace(fn, key=k, when=when or utc())(*a, **kw)
                elif way == "execution":
                    e = Execution(d, d.fns[f], a, kw, k, utc(), 1)
                    await e.schedule()
                else: e = await d.add(fn, key=k, when=when)(*a, **kw)
                if e.disposition.name != "SCHEDULED": self.bad.append(("refused", f"{way}: {f}{a}{kw} under {k!r}: {e.disposition.name}"))
                g = await d.get_execution(k)
                if g is None or (canon(g.args), canon(g.kwargs), g.function_name, g.key) != (canon(a), canon(kw), f, k):
                    self.bad.append(("record", f"{way}: get_execution({k!r}) after {f}{a!r:.200}{kw!r:.200}: {g and (g.args, g.kwargs, g.function_name, g.key)}"))
                if way == "ahead" and i < 40:
                    s = await d.snapshot()
                    x = [x for x in s.future if x.key == k]
                    if len(x) != 1 or (canon(x[0].args), canon(x[0].kwargs), x[0].function_name) != (canon(a), canon(kw), f): self.bad.append(("snapshot", f"{way}: the snapshot shows {x} for {k!r}"))
            if way == "no-worker-yet": t1 = self.start_worker(env, "w1")
            if way.endswith("redelivered"):
                await asyncio.sleep(0.5)
                env.crash("w1")
                self.start_worker(env, "w2")
            await asyncio.sleep(8.0 + len(cases) * (0.35 if way in ("parked", "rated") else 0.02))
            n = {"retry0": 3, "retry": 3, "retry-redelivered": 3, "chain": 3, "chain2": 3, "again": 2}.get(way, 1)
            for k, (f, a, kw), i in zip(keys, cases, range(len(cases))):
                runs = [g for g in env.data.got if g[1] == k]
                oa, okw = SHAPES[f][(i + 1) % len(SHAPES[f])]
                if len(runs) != n: self.bad.append(("runs", f"{way}: {f}{a!r:.200}{kw!r:.200} under {k!r} ran {len(runs)} times, not {n}"))
                for j, g in enumerate(runs):
                    if way == "chain2": oa, okw = env.data.second[k]
                    ra, rk = (oa, okw) if (way == "again" and j == 0) or (way == "chain2" and j > 0) else (a, kw)
                    want = self.expected(f, ra, rk)
                    if g[0] != f or g[3] != want or g[4] != want: self.bad.append(("call", f"{way}: run {j + 1} of {k!r} received {g[0]}{g[3]!r:.400}, expected {f}{want!r:.400}"))
                    if (g[5], g[6], g[9]) != (k, f, self.docket_name) or g[10] not in ("w1", "w2"): self.bad.append(("context", f"{way}: the run of {k!r} ({f}) was told {g[5:7]} {g[9:11]}"))
                    if (g[7], g[8]) != (canon(ra), canon(rk)): self.bad.append(("context-call", f"{way}: the run of {k!r} was told the arguments {g[7]!r:.300} {g[8]!r:.300} instead of {ra!r:.300} {rk!r:.300}"))
                    if way in ("retry", "retry0", "retry-redelivered") and g[11] != j + 1: self.bad.append(("attempt", f"{way}: run {j + 1} of {k!r} is attempt {g[11]}"))
        self.n = len(cases)

    def check(self, env):
        out, seen = [], set()
        for k, t in self.bad:
            if k not in seen: out.append((k, t))
            seen.add(k)
        return out

    def counts(self, env): return self.n, self.n

    def covered(self, env): return [self.way]


class Mixing(World):
    """Calls of two functions under two keys that replace one another; each call carries its tag in every argument."""
    poll = 0.3
    redelivery = 2.0
    hold_limit = 0.8
    plan = ()
    acts = {}
    victims = ()
    workers = 1
    window = 2.0

    def tasks(self, env):
        async def run(fn, tags, tk, x, secs):
            async with body(env, tk, fn, tags, x.key, x.function_name, (x.args[0], x.kwargs.get("b"), x.kwargs.get("secs"))):
                await asyncio.sleep(secs)

        async def f(tag, *, b, secs=0.3, tk: str = TaskKey(), ta: str = TaskArgument("b"), x: Execution = CurrentExecution()):
            await run("f", (tag, b, ta), tk, x, secs)

        async def g(tag, *, b, secs=0.3, tk: str = TaskKey(), ta: str = TaskArgument("b"), x: Execution = CurrentExecution(), retry: Retry = Retry(attempts=2, delay=S(0.3))):
            await run("g", (tag, b, ta), tk, x, secs)
            if x.attempt < 2: raise ValueError

        async def h(tag, *, b, secs=0.3, tk: str = TaskKey(), ta: str = TaskArgument("b"), x: Execution = CurrentExecution(), c: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=1)):
            await run("h", (tag, b, ta), tk, x, secs)
        return {"f": f, "g": g, "h": h}

    def allow_crash(self, op, env): return op.proc in self.victims
    def injections(self): return sorted(self.acts)

    async def inject(self, env, which):
        for c in self.acts[which]: await self.do(env, *c)

    async def do(self, env, op, key, fn=None, tag=None, delay=0):
        d = env.data.client
        if op == "cancel": return await d.cancel(key)
        if op == "clear": return await d.clear()
        when = utc() + S(delay) if delay else None
        env.ev("call", key, fn, tag)
        if op == "add": await d.add(fn, key=key, when=when)(f"{fn}-{tag}", b=f"{fn}-{tag}")
        else: await d.replace(fn, key=key, when=when or utc())(f"{fn}-{tag}", b=f"{fn}-{tag}")

    def mixed(self, key, fn, tags, calls):
        return len(set(tags)) != 1 or tags[0].split("-")[0] != fn or (key, fn, tags[0].split("-")[1]) not in calls

    async def main(self, env):
        bad = env.data.bad = []
        async with self.client(env) as d:
            env.data.client = d

            def hook(op):
                if not any(w for _, _, w in op.acc): return
                calls = {e[3:6] for e in evs(env, "call")}
                for k in ("k", "o"):
                    e = env.instant(d.get_execution(k))
                    if e is not None and e.args and self.mixed(k, e.function_name, (e.args[0], e.kwargs.get("b")), calls):
                        bad.append(("record-mixed", f"at {env.t()} the record of {k} reads {e.function_name}{e.args}{e.kwargs}"))
            env.step_hooks.append(hook)
            for n in range(self.workers): self.start_worker(env, f"w{n + 1}")
            await asyncio.sleep(0.5)
            env.explore = True
            t0 = env.t()
            for at, *c in self.plan:
                await asyncio.sleep(max(0, t0 + at - env.t()))
                await self.do(env, *c)
            await asyncio.sleep(max(0, t0 + self.window - env.t()))
            env.explore = False
            await asyncio.sleep(5)

    def check(self, env):
        out = env.data.bad[:1]
        calls = {e[3:6] for e in evs(env, "call")}
        for e in starts(env):
            key, n, fn, tags, xk, xf, xargs = e[3:10]
            if self.mixed(key, fn, tags, calls) or (xk, xf) != (key, fn) or xargs[:2] != tags[:2]:
                out.append(("run-mixed", f"a run under {key!r} of {fn} received {tags}, its execution reads {xf}{xargs} under {xk!r}; calls {sorted(calls)}"))
                break
        return out

    def covered(self, env): return {e[5] for e in starts(env)}


def work(tier):
    deep = tier == "thorough"
    out = [(Grid(name=f"way-{w}", way=w, small=not deep and w in ("rated", "parked", "past", "replaced-ahead")), Bounds(depth=0)) for w in WAYS]
    acts = {"rf": [("replace", "k", "f", "r")], "rg-later": [("replace", "k", "g", "r", 0.5)], "cancel-add": [("cancel", "k"), ("add", "k", "h", "x")], "clear-add": [("clear", "k"), ("add", "k", "f", "x", 0.4)]}
    b = Bounds(2, m=1 if not deep else 3, hold=1, inject=1)
    out += [
        (Mixing(name="at-once", acts=acts, plan=[(0, "add", "k", "g", "a"), (0, "add", "o", "f", "a")], workers=2, window=1.2), b),
        (Mixing(name="ahead", acts=acts, plan=[(0, "add", "k", "f", "a", 0.6), (0, "replace", "k", "g", "b", 0.8)], window=2.0), b),
        (Mixing(name="parked", acts=acts, plan=[(0, "add", "o", "h", "a"), (0.05, "add", "k", "h", "b")], window=1.5), b),
        (Mixing(name="dying", acts=acts, plan=[(0, "add", "k", "g", "a"), (0, "add", "o", "h", "a"), (0.2, "add", "p", "h", "b")], workers=2, victims=("w1",), window=2.0),
         Bounds(1 if not deep else 2, m=1, crash=1, inject=1)),
    ]
    return out
