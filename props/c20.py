"""C20: waiting for a result always ends, with the task's own outcome."""
import datetime as dt, decimal, enum
from docket import Timeout
from docket.execution import ExecutionCancelled
from props.keyed import *
from mc.explore import Bounds

RULE = ("a waiter for the result begins at every operation of a task's life (pending, parked, retried, running, cancelled, replaced, failed), with and without a "
        "time limit, with all placements of holds and reversals of its operations; results and exceptions of many types")


class Custom:
    def __init__(self, x): self.x = x
    def __eq__(self, o): return type(o) is type(self) and o.x == self.x
    def __hash__(self): return hash(self.x)
    def __repr__(self): return f"Custom({self.x!r})"


class Oops(Exception):
    def __init__(self, a, b=None):
        super().__init__(a, b)
        self.b = b


class Colour(enum.Enum): RED = 1


VALUES = [None, 0, 1, -5, False, True, "", "x", b"", b"\x00\xff", 1.5, float("inf"), [], [None], {}, {"a": [1, {"b": 2}]}, (), (1, "2"), {1, 2}, frozenset(), "text é 漢 \U0001f600",
          "a" * 100000, Custom(3), Custom([Custom(None)]), Colour.RED, dt.datetime(2026, 1, 1, tzinfo=dt.timezone.utc), dt.timedelta(seconds=3), decimal.Decimal("1.10"), ValueError("a value"),
          [ValueError("x")], int, len, {"data": "x"}, "gAWVBQ==", 10 ** 40, range(3), slice(1, 2), complex(1, 2), "null", '{"data": 1}']
ERRORS = [ValueError("boom"), ValueError(), KeyError("k"), Oops("a", 3), Exception("é\n'\""), TimeoutError("own"), asyncio.TimeoutError(), LookupError("a", "b"), AssertionError(),
          ExceptionGroup("several", [ValueError("1"), KeyError("2")]), RuntimeError("x" * 50000), OSError(2, "no such thing"), StopAsyncIteration("s"), ConnectionError("the task's own"),
          ExecutionCancelled("own"), UnicodeDecodeError("utf-8", b"\xff", 0, 1, "why"), ArithmeticError(None), NotImplementedError, KeyError]


def same(a, b):
    if isinstance(a, BaseException) and isinstance(b, BaseException):
        if isinstance(a, BaseExceptionGroup): return type(a) is type(b) and a.args[0] == b.args[0] and all(same(x, y) for x, y in zip(a.exceptions, b.exceptions)) and len(a.exceptions) == len(b.exceptions)
        return type(a) is type(b) and a.args == b.args and str(a) == str(b) and {k: v for k, v in a.__dict__.items() if k != "__notes__"} == {k: v for k, v in b.__dict__.items() if k != "__notes__"}
    if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(map(same, a, b))
    return type(a) is type(b) and a == b


class Types(World):
    """Every value and exception, waited for before, during and after the run, on another client."""
    poll = 0.05
    concurrency = 1000
    warm_runs = 1
    max_ops = 10 ** 6
    runtime = False

    def tasks(self, env):
        if self.runtime:
            async def give(i: int, t: Timeout = Timeout(S(5))):
                await asyncio.sleep(0.3)
                return VALUES[i]

            async def fail(i: int, t: Timeout = Timeout(S(5))):
                await asyncio.sleep(0.3)
                raise ERRORS[i]
        else:
            async def give(i: int):
                await asyncio.sleep(0.3)
                return VALUES[i]

            async def fail(i: int, r: Retry = Retry(attempts=2, delay=S(0.1))):
                await asyncio.sleep(0.1)
                raise ERRORS[i]
        return {"give": give, "fail": fail}

    async def wait(self, env, e, k, when):
        try: r = ("value", await e.get_result())
        except Exception as x: r = ("error", x)
        env.data.got.append((env.t(), k, when, r))

    async def main(self, env):
        env.data.got = []
        self.n = 0
        async with self.client(env) as d, self.client(env) as d2:
            self.start_worker(env, "w")
            await asyncio.sleep(0.3)
            keys = [("give", i) for i in range(len(VALUES))] + [("fail", i) for i in range(len(ERRORS))]
            ws = []
            for f, i in keys:
                e = await d.add(d.fns[f], key=f"{f}{i}", when=utc() + S(0.5))(i)
                ws.append(asyncio.ensure_future(self.wait(env, e, (f, i), "before")))
            for at in (0.6, 0.5, 1.0):
                await asyncio.sleep(at)
                for f, i in keys:
                    e = await d2.get_execution(f"{f}{i}")
                    if e is None:
                        env.data.got.append((env.t(), (f, i), "no record", ("none", None)))
                        continue
                    ws.append(asyncio.ensure_future(self.wait(env, e, (f, i), f"at {env.t():.1f}")))
            await asyncio.sleep(1)
            self.n = len(ws)
            self.keys_ = keys
            for w in ws: w.cancel()

    def check(self, env):
        out, seen = [], set()
        if len(env.data.got) != self.n: out.append(("hang", f"{self.n - len(env.data.got)} of {self.n} waiters were left waiting; those served: {len(env.data.got)}"))
        for t, (f, i), when, (kind, r) in env.data.got:
            if f == "give": ok, want = kind == "value" and same(r, VALUES[i]), VALUES[i]
            else:
                want = ERRORS[i]() if isinstance(ERRORS[i], type) else ERRORS[i]
                ok = kind == "error" and same(r, want)
            if isinstance(want, StopAsyncIteration): ok = kind == "error"
            if not ok and (f, i) not in seen:
                seen.add((f, i))
                out.append((f"{f}-{type(want).__name__}", f"the task {'returned' if f == 'give' else 'raised'} {repr(want)[:60]}; waiting {when} gave {kind} {repr(r)[:80]}"))
        return out

    def counts(self, env): return len(env.data.got), 0


class Waiting(Keyed):
    poll = 0.4
    redelivery = 10.0
    hold_limit = 0.7
    window = 2.4
    settle = 5.0
    limits = (None,)
    inject_after_reads = True

    def allow(self, op, env): return True

    def injections(self): return sorted(f"wait{'' if x is None else x}" for x in self.limits) + sorted(self.acts)

    async def wait(self, env, limit, handle=None, name="w"):
        async with self.client(env) as d:
            e = handle or await d.get_execution("k")
            if e is None: return
            n = env.data.__dict__.setdefault("waits", [0])
            n[0] += 1
            n = n[0]
            env.ev("wait", n, limit)
            try:
                if limit is None: r = ("value", await e.get_result())
                elif limit == "past": r = ("value", await e.get_result(deadline=utc() - S(1)))
                elif limit == "deadline": r = ("value", await e.get_result(deadline=utc() + S(0.8)))
                else: r = ("value", await e.get_result(timeout=S(float(limit))))
            except ExecutionCancelled: r = ("cancelled", None)
            except TimeoutError as x: r = ("timeout", str(x))
            except Exception as x: r = ("error", repr(x))
            env.ev("got", n, *r)

    async def inject(self, env, which):
        if which.startswith("wait"):
            lim = which[4:] or None
            await self.wait(env, lim)
        else: await super().inject(env, which)

    async def do(self, env, d, op, key, *a):
        if op == "wait":
            env.spawn(f"waiter{env.nops}", self.wait(env, a[0] if a else None))
            return
        await super().do(env, d, op, key, *a)

    def check(self, env):
        out = []
        calls = [c for c in self.calls(env) if c["key"] == "k"]
        meddling = [c for c in calls if c["op"] in ("replace", "cancel", "add")][1:]
        runs = self.runs(env, "k")
        slack = 0.06 + 2.5 * self.hold_limit * env.nheld
        finals = [(t, s) for t, k, s in env.data.hist if k == "k" and s in FINAL]
        got = {e[3]: e for e in env.events if e[2] == "got"}
        for w in evs(env, "wait"):
            t, n, lim = w[0], w[3], w[4]
            g = got.get(n)
            trace = f"waiting from {t} (limit {lim}); record {env.data.hist}; runs {[(r['tag'], r['start'], r['end'], r['exc']) for r in runs]}; calls {[(c['op'], c['t0'], c['tag']) for c in calls]}"
            if g is None:
                out.append((f"hang-{finals[-1][1] if finals else None}", f"the waiter was still waiting at the end: {trace}"))
                continue
            t1, kind, r = g[0], g[4], g[5]
            L = {"past": 0.0, "deadline": 0.8, None: 1e9}.get(lim) if lim in ("past", "deadline", None) else float(lim)
            if t1 > t + L + slack: out.append(("past-deadline", f"ended at {t1}: {trace}"))
            if kind == "timeout":
                if lim is None or t1 < t + L - 0.01: out.append(("early-timeout", f"gave up at {t1}: {trace}"))
                early = [f for f in finals if f[0] < t + L - slack]
                if early and not meddling and lim != "past": out.append(("timeout-though-ended", f"gave up at {t1}: {trace}"))
                continue
            # the outcome is that of a final state recorded after the waiter began, or the one standing then
            standing = [f for f in finals if f[0] <= t][-1:]
            if meddling:
                allowed = standing + [f for f in finals if t < f[0] <= t1 + 1e-6]
                ok = False
                for f in allowed:
                    if f[1] == "cancelled" and kind == "cancelled": ok = True
                    if f[1] == "completed" and kind == "value" and r in {x["tag"] for x in runs if x["end"] and x["exc"] is None}: ok = True
                    if f[1] == "failed" and kind == "error" and "ValueError" in r: ok = True
                # a schedule that was superseded while it was being waited for
                if not ok and not [c for c in meddling if c["op"] == "replace" and c["t1"] >= t]:
                    out.append((f"outcome-{kind}", f"waiting gave {kind} {r!r} at {t1}: {trace}"))
                continue
            if not finals or finals[0][0] > t1 + 1e-6:
                out.append(("early", f"waiting gave {kind} {r!r} at {t1}, before the end: {trace}"))
                continue
            if t1 > max(t, finals[0][0]) + slack: out.append(("late", f"waiting gave {kind} at {t1}: {trace}"))
            want = {"completed": ("value", self.tag), "failed": ("error", f"ValueError('{self.tag}')"), "cancelled": ("cancelled", None)}[finals[0][1]]
            if (kind, r) != want: out.append((f"outcome-{kind}", f"waiting gave {kind} {r!r}, expected {want}: {trace}"))
        return out

    tag = "a"

    def covered(self, env): return {f"{e[4]}" for e in evs(env, "got")}


def work(tier):
    deep = tier == "thorough"
    out = [(Types(name="types"), Bounds(0)), (Types(name="types-timeout", runtime=True), Bounds(0))]
    for fn in ("job", "fails", "flaky", "limited", "rated"):
        for delay in (0, 0.5):
            plan = [(0, "add", "k", fn, "a", delay, 0.3)]
            if fn in ("limited", "rated"): plan = [(0, "add", "h", fn, "h", 0, 0.6), (0.1, "add", "k", fn, "a", delay, 0.3)]
            fns = (fn, "job") if fn != "job" else ("job",)
            out.append((Waiting(name=f"wait-{fn}-{delay}", functions=fns, plan=plan, limits=(None, "0.7", "deadline", "past") if fn == "job" else (None, "0.7")), Bounds(1, inject=1)))
            if deep or (fn, delay) in (("job", 0), ("flaky", 0)):
                out.append((Waiting(name=f"wait-race-{fn}-{delay}", functions=fns, plan=plan, window=1.2 if not deep else 2.4), Bounds(2, m=2, inject=1, hold=1)))
    for at, op in ((0.25, "cancel"), (0.7, "cancel"), (0.25, "replace")):
        for fn in ("job", "cleanup"):
            act = ("cancel", "k") if op == "cancel" else ("replace", "k", "job", "b", 0, 0.2)
            fns = (fn, "job") if fn != "job" else ("job",)
            out.append((Waiting(name=f"wait-{fn}-{op}-{at}", functions=fns, plan=[(0, "add", "k", fn, "a", 0.5, 0.4), (at, *act)]), Bounds(1, inject=1)))
    # the waiter itself racing with the end of the task, and with a user
    for fn, delay in (("job", 0), ("fails", 0), ("limited", 0.2)):
        acts = {"cancel": (("cancel", "k"),), "replace": (("replace", "k", "job", "b", 0, 0.2),)}
        fns = (fn, "job") if fn != "job" else ("job",)
        plan = [(0, "add", "k", fn, "a", delay, 0.3)] + ([(0, "add", "h", fn, "h", 0, 0.5)] if fn == "limited" else []) + [(0.1, "wait", "k"), (0.298, "wait", "k")]
        out.append((Waiting(name=f"race-{fn}", functions=fns, plan=plan, acts=acts, limits=(None,), window=1.5), Bounds(2 if deep else 1, m=3, hold=1, inject=1)))
    # waiting for a replacement while the older run is still going on
    for secs in (0.2, 0.8):
        out.append((Waiting(name=f"replacement-{secs}", functions=("job",), tag="b", plan=[(0, "add", "k", "job", "a", 0, 0.6), (0.2, "replace", "k", "job", "b", 0.3, secs), (0.3, "wait", "k")], workers=2),
                    Bounds(1, m=2, hold=1, inject=1)))
    return out
