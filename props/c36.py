"""C36: the metrics agree with what the tasks did."""
import itertools
from opentelemetry import metrics as otel
from docket import CurrentExecution, Retry, Perpetual, Timeout, ConcurrencyLimit, RateLimit, Depends
from mc.world import *
from mc.explore import Bounds

RULE = ("every kind of run (returning, raising, retried, timed out, with failing dependencies and clean-ups, perpetual, limited, struck, replaced, cancelled, redelivered) with a user adding, replacing, "
        "cancelling and striking at every operation, on one or two workers, the gauge of running tasks being read throughout; all short sequences of strikes and restorations; and depths over mixes of tasks")
VALUES = {}


class Instrument:
    """What an SDK would aggregate, with far less ado: sums of counters, (count, sum) of histograms, last values of gauges."""

    def __init__(self, name, *a, **kw): self.name = name

    def key(self, attributes): return self.name.removeprefix("docket_"), frozenset((attributes or {}).items())

    def put(self, amount, attributes=None, *a, **kw):
        k = self.key(attributes)
        VALUES[k] = VALUES.get(k, 0) + amount


class Counter(Instrument, otel.Counter): add = Instrument.put
class UpDown(Instrument, otel.UpDownCounter): add = Instrument.put


class Histogram(Instrument, otel.Histogram):
    def record(self, amount, attributes=None, *a, **kw):
        c, t = VALUES.get(self.key(attributes), (0, 0.0))
        VALUES[self.key(attributes)] = c + 1, t + amount


class Gauge(Instrument, otel._Gauge if hasattr(otel, "_Gauge") else otel.Instrument):
    def set(self, amount, attributes=None, *a, **kw): VALUES[self.key(attributes)] = amount


class Meter(otel.NoOpMeter):
    def create_counter(self, name, *a, **kw): return Counter(name)
    def create_up_down_counter(self, name, *a, **kw): return UpDown(name)
    def create_histogram(self, name, *a, **kw): return Histogram(name)
    def create_gauge(self, name, *a, **kw): return Gauge(name)


class Provider(otel.MeterProvider):
    def get_meter(self, name, *a, **kw): return Meter(name)


otel.set_meter_provider(Provider())


def read(): return dict(VALUES)


class Metrics:
    def __init__(self): self.base = read()

    def now(self):
        return {k: (v[0] - self.base.get(k, (0, 0))[0], v[1] - self.base.get(k, (0, 0))[1]) if isinstance(v, tuple) else v - self.base.get(k, 0) for k, v in read().items()}

    def total(self, metric, now=None, /, **labels):
        t, s = 0, 0.0
        for (n, l), v in (now or self.now()).items():
            l = dict(l)
            if n == metric and all(l.get("docket." + k) == x for k, x in labels.items()):
                if isinstance(v, tuple): t, s = t + v[0], s + v[1]
                else: t += v
        return (t, s) if metric in ("task_duration", "task_punctuality") else t


class Life(World):
    poll = 0.25
    hold_limit = 0.8
    redelivery = 3.0
    window = 1.6
    settle = 6.0
    plan = ()
    acts = {}
    workers = 1
    stolen_first = False
    functions = ("ok",)

    def tasks(self, env):
        async def broken(): raise ValueError("no")

        def late(name, ex): env.ev("late", name, utc().timestamp() - ex.when.timestamp())

        async def ok(name, secs, ex=CurrentExecution()):
            late(name, ex)
            async with body(env, name): await asyncio.sleep(secs)
            return name

        async def fails(name, secs):
            async with body(env, name):
                await asyncio.sleep(secs)
                raise ValueError("x")

        async def flaky(name, secs, retry: Retry = Retry(attempts=3, delay=S(0.3)), ex=CurrentExecution()):
            late(name, ex)
            async with body(env, name):
                await asyncio.sleep(secs)
                if retry.attempt < 3: raise ValueError("again")

        async def timed(name, secs, t: Timeout = Timeout(S(0.25))):
            async with body(env, name): await asyncio.sleep(secs)

        async def unmet(name, secs, x=Depends(broken)):
            async with body(env, name): pass

        async def perp(name, secs, p: Perpetual = Perpetual(every=S(0.4))):
            async with body(env, name):
                await asyncio.sleep(secs)
                if len(starts(env, name)) >= 3: p.cancel()

        async def limited(name, secs, c: ConcurrencyLimit = ConcurrencyLimit(1)):
            async with body(env, name): await asyncio.sleep(secs)

        async def rated(name, secs, r: RateLimit = RateLimit(1, per=S(1.0))):
            async with body(env, name): await asyncio.sleep(secs)
        fns = dict(ok=ok, fails=fails, flaky=flaky, timed=timed, unmet=unmet, perp=perp, limited=limited, rated=rated)
        return {k: fns[k] for k in self.functions}

    def injections(self): return sorted(self.acts)
    inject_after_reads = True

    async def inject(self, env, which):
        for op in self.acts[which]: await self.do(env, *op)

    async def do(self, env, op, key, fn=None, secs=0.2, delay=0):
        d = env.data.client
        r = None
        env.ev("calls", op, key, fn)
        if op == "add": r = (await d.add(d.fns[fn], key=key, when=utc() + S(delay) if delay else None)(key, secs)).disposition.name
        elif op == "replace": r = (await d.replace(d.fns[fn], key=key, when=utc() + S(delay))(key, secs)).disposition.name
        elif op == "cancel": await d.cancel(key)
        elif op == "strike": await d.strike(key)
        elif op == "restore": await d.restore(key)
        env.ev("called", op, key, fn, r)

    async def main(self, env):
        self.bad = []
        m = Metrics()
        async with self.client(env) as d:
            env.data.client = d
            if self.stolen_first:
                for op in self.plan: await self.do(env, *op[1:])
                await self.stolen(env)
            for n in range(self.workers): self.start_worker(env, f"w{n + 1}")
            env.explore = True
            t0 = env.t()
            sampler = asyncio.create_task(self.sample(env, m))
            for at, *op in self.plan if not self.stolen_first else ():
                await asyncio.sleep(max(0, t0 + at - env.t()))
                await self.do(env, *op)
            await asyncio.sleep(max(0, t0 + self.window - env.t()))
            env.explore = False
            await asyncio.sleep(self.settle)
            sampler.cancel()
            self.final(env, m)

    async def sample(self, env, m):
        """The gauge counts every body that is running."""
        running = lambda: sum(v for (n, _), v in VALUES.items() if n == "tasks_running")
        r0 = sum(v for (n, _), v in m.base.items() if n == "tasks_running")
        while True:
            await asyncio.sleep(0.0301)
            inside = len([e for e in starts(env) if e[1] not in env.dead]) - len(finishes(env))
            n = running() - r0
            if n < inside or n > (inside + 1 if not env.nheld and not self.acts else 9):
                self.bad.append(("running", f"at {env.t()} docket_tasks_running is {n}, {inside} bodies are running"))
                return

    def final(self, env, m):
        now = m.now()
        calls = evs(env, "called")
        by = {}
        for e in starts(env): by.setdefault(e[3], []).append(e)
        fin = {}
        for e in finishes(env): fin.setdefault(e[3], []).append(e[5])
        fn = {}
        for c in calls:
            if c[5]: fn.setdefault(c[4], c[5])
        upset = bool(self.acts) and any(c[3] in ("cancel", "replace", "strike") for c in calls)
        T = lambda name, **kw: m.total(name, now, name="d", **kw)
        ctx = f"calls {[c[3:] for c in calls]}; runs {[(e[0], e[1], e[3]) for e in starts(env)]}; ends {[(e[0], e[3], e[5]) for e in finishes(env)]}"

        def want(what, got, lo, hi=None):
            hi = lo if hi is None else hi
            if not lo <= got <= hi: self.bad.append((what.split()[0], f"{what} is {got}, expected {lo}" + (f" to {hi}" if hi != lo else "") + f"; {ctx}"))
        started, done = T("tasks_started"), T("tasks_completed")
        want("tasks_running (everything being over)", T("tasks_running"), 0)
        want("tasks_completed against tasks_started", done, started)
        dur, punct = T("task_duration"), T("task_punctuality")
        want("task_duration (its count)", dur[0], done)
        want("task_punctuality (its count)", punct[0], started)
        ok = T("tasks_succeeded")
        for f in self.functions:
            keys = {c[4] for c in calls if c[5] == f}
            mine = [e for k in keys for e in by.get(k, ())]
            ends = [x for k in keys for x in fin.get(k, ())]
            mid = upset and f == "perp"        # (its successors may be struck)
            struck = [c for c in calls if c[5] == f and c[6] == "STRUCK"]
            accepted = [c for c in calls if c[5] == f and c[6] == "SCHEDULED"]
            refused = [c for c in calls if c[5] == f and c[6] == "ALREADY_SCHEDULED"]
            n = len(mine)
            # a key moves between functions when it's replaced; then only the whole counts
            mixed = any(len({c[5] for c in calls if c[4] == k and c[5]}) > 1 for k in keys)
            if mixed: continue
            kw = dict(task=f)
            if f == "unmet":
                want("tasks_started of unmet", T("tasks_started", **kw), 0 if upset or struck else len(accepted), len(accepted))
                want("tasks_failed of unmet", T("tasks_failed", **kw), T("tasks_started", **kw) - (1 if upset else 0), T("tasks_started", **kw))
                want("tasks_succeeded of unmet", T("tasks_succeeded", **kw), 0)
            else:
                blocked = f in ("limited", "rated")
                want(f"tasks_started of {f}", T("tasks_started", **kw), n, n + (2 * len(accepted) if blocked else 1 if upset else 0))
                good, wrong = ends.count(None), len([x for x in ends if x not in (None, "CancelledError")])
                timed = ends.count("CancelledError") if f == "timed" else 0
                want(f"tasks_succeeded of {f}", T("tasks_succeeded", **kw), good - (1 if upset else 0), good)
                want(f"tasks_failed of {f}", T("tasks_failed", **kw), wrong + timed - (1 if upset else 0), wrong + timed)
            if f == "flaky": want("tasks_retried of flaky", T("tasks_retried", **kw), n - len(accepted) if not upset else 0, len([x for x in ends if x]))
            else: want(f"tasks_retried of {f}", T("tasks_retried", **kw), 0)
            follow = T("tasks_perpetuated", **kw)
            if f == "perp" and not upset: want("tasks_perpetuated of perp", follow, n - len(accepted))
            if f != "perp": want(f"tasks_perpetuated of {f}", follow, 0)
            want(f"tasks_scheduled of {f}", T("tasks_scheduled", **kw), len(accepted) + (0 if mid else follow), len(accepted) + follow)
            adds = len([c for c in accepted if c[3] == "add"])
            want(f"tasks_added of {f}", T("tasks_added", **kw), adds, adds + len(refused))
            want(f"tasks_replaced of {f}", T("tasks_replaced", **kw), len([c for c in accepted if c[3] == "replace"]) + (0 if mid else follow), len([c for c in accepted if c[3] == "replace"]) + follow)
            want(f"tasks_stricken of {f} at the docket", T("tasks_stricken", where="docket", **kw), len(struck), len(struck) + (9 if mid else 0))
            if f in ("ok", "fails", "timed", "unmet") and not any(c[3] in ("cancel", "replace") for c in calls):
                want(f"tasks_started and tasks_stricken of {f} at the worker", T("tasks_started", **kw) + T("tasks_stricken", where="worker", **kw), len(accepted))
            again = (T("tasks_started", **kw) if f == "unmet" else n) if self.stolen_first else 0
            want(f"tasks_redelivered of {f}", T("tasks_redelivered", **kw), 1 if self.stolen_first and n else 0, again)
            if not upset and self.single:
                spent = sum(b[0] - a[0] for k in keys for a, b in zip(by.get(k, ()), [e for e in finishes(env) if e[3] == k]))
                d = T("task_duration", **kw)
                want(f"task_duration (sum, in ms) of {f}", round(1000 * d[1]), round(1000 * spent) - 3, round(1000 * spent) + 3 + 300 * env.nheld + (500 if blocked_ok(f) else 0))
                pn = T("task_punctuality", **kw)
                if f in ("ok", "flaky"):
                    exp = sum(e[4] for e in evs(env, "late") if e[3] in keys)
                    want(f"task_punctuality (sum, in ms) of {f}", round(1000 * pn[1]), round(1000 * exp) - 3 - round(1000 * self.hold_limit * env.nheld), round(1000 * exp) + 3)
                elif not self.stolen_first: want(f"task_punctuality (sum, in ms) of {f}", round(1000 * pn[1]), -1, round(1000 * pn[0] * (2 * self.poll + 0.6 + self.hold_limit * env.nheld) + (3000 if blocked_ok(f) else 0)))
        cancels = len([c for c in calls if c[3] == "cancel"])
        want("tasks_cancelled without a task", T("tasks_cancelled") - T("tasks_replaced"), cancels)
        # a worker's metrics name it, and only workers that are there
        for (name, l), v in now.items():
            l = dict(l)
            if v and l.get("docket.name") == "d" and name in ("tasks_started", "tasks_completed", "tasks_succeeded", "tasks_failed"):
                if l.get("docket.worker") not in [f"w{i + 1}" for i in range(self.workers)] or l.get("docket.task") not in self.functions: self.bad.append(("labels", f"{name} has labels {l}"))
        for w in range(self.workers):
            n = len([e for e in starts(env) if e[1] == f"w{w + 1}" and fn.get(e[3]) not in ("limited", "rated")])
            if not {"limited", "rated", "unmet"} & set(self.functions): want(f"tasks_started of w{w + 1}", T("tasks_started", worker=f"w{w + 1}"), n, n + (1 if upset else 0))
    single = True

    def check(self, env): return self.bad

    def covered(self, env): return {f"{e[3]} {e[6]}" for e in evs(env, "called")}


def blocked_ok(f): return f in ("limited", "rated")


class Strikes(World):
    """All sequences of instructions: the gauge is the number of strikes in force, on every docket."""
    length = 3
    first = 0

    async def main(self, env):
        self.bad, self.n = [], 0
        conds = (("f",), ("g",), ("f", "x", "==", 1), (None, "x", "==", 1), (None, "x", ">", 1))
        ins = [(k, c) for c in conds for k in ("strike", "restore")]
        for j, rest in enumerate(itertools.product(ins, repeat=self.length - 1)):
            seq = (ins[self.first],) + rest
            self.docket_name = f"d{j}"
            m = Metrics()
            live = set()
            async with self.client(env) as d:
                await asyncio.sleep(0.01)
                for k, c in seq:
                    await getattr(d, k)(*c)
                    (live.add if k == "strike" else live.discard)(c)
                    await asyncio.sleep(0.01)
                    n = m.total("strikes_in_effect", name=self.docket_name)
                    if n != len(live): self.bad.append(("in-effect", f"after {seq} the gauge of strikes in effect is {n}; in force are {sorted(map(str, live))}"))
                if self.bad: return
            self.n += 1

    def check(self, env): return self.bad
    def counts(self, env): return self.n, self.n * self.length


class Depths(World):
    """The gauges of the queue and the schedule, for every mix of ready, due, future, running and finished tasks."""
    poll = 0.1
    heartbeat = 0.5
    concurrency = 2
    due = False             # all that is ready is due, and nobody has looked yet

    def tasks(self, env):
        async def job(name, secs):
            async with body(env, name): await asyncio.sleep(secs)
        return {"job": job}

    async def main(self, env):
        self.bad, self.n = [], 0
        due = self.due
        for j, (running, ready, future, done) in enumerate(itertools.product((0, 1, 2), (0, 1, 3), (0, 1, 4), (0, 2))):
            if ready and running < 2 and not due: continue
            self.docket_name = f"d{j}"
            m = Metrics()
            async with self.client(env) as d:
                t = self.start_worker(env, f"w{j}")
                await asyncio.sleep(0.3)
                for n in range(done): await d.add(d.fns["job"], key=f"done{n}")("done", 0.01)
                await asyncio.sleep(0.3)
                for n in range(running): await d.add(d.fns["job"], key=f"run{n}")("run", 3.0)
                await asyncio.sleep(0.3)
                for n in range(ready): await d.add(d.fns["job"], key=f"ready{n}", when=None if n != 1 and not due else utc() + S(0.1))("ready", 5.0 if due else 0.1)
                for n in range(future): await d.add(d.fns["job"], key=f"future{n}", when=utc() + S(50 + 3000 * n))("future", 0.1)
                await asyncio.sleep(1.3)
                now = read()
                key = frozenset({("docket.name", self.docket_name)})
                q, s = now.get(("queue_depth", key)), now.get(("schedule_depth", key))
                if q is None or not ready <= q <= ready + running: self.bad.append(("queue", f"{ready} tasks wait to be run ({running} run, {future} are scheduled, {done} have ended), docket_queue_depth is {q}"))
                if s != future: self.bad.append(("schedule", f"{future} tasks are scheduled ({ready} ready, {running} running, {done} ended), docket_schedule_depth is {s}"))
                self.n += 1
                t.cancel()
                await asyncio.gather(t, return_exceptions=True)
                await d.clear()
            if self.bad: return

    def check(self, env): return self.bad
    def counts(self, env): return self.n, self.n


def work(tier):
    deep = tier == "thorough"
    out = []
    kinds = ("ok", "fails", "flaky", "timed", "unmet", "perp", "limited", "rated")
    for f in kinds:
        for w in (1, 2):
            plan = [(0.3, "add", "a", f, 0.3), (0.35, "add", "b", f, 0.1), (0.4, "add", "c", f, 0.2, 0.5)]
            out.append((Life(name=f"{f}-{w}", functions=(f,), plan=plan, workers=w, settle=9.0), Bounds(1 if not deep else 2, m=2 if deep else 1, hold=1)))
        one = [(0.3, "add", "a", f, 0.3), (0.4, "add", "c", f, 0.2, 0.5)]
        acts = {"cancel": (("cancel", "a"),), "replace": (("replace", "a", f, 0.15, 0.3),), "strike": (("strike", f),), "readd": (("cancel", "a"), ("add", "a", f, 0.1)), "struck-add": (("strike", f), ("add", "x", f), ("replace", "c", f))}
        out.append((Life(name=f"{f}-user", functions=(f,), plan=one, acts=acts, window=1.3, settle=8.0), Bounds(1 if not deep else 2, m=1, inject=1, hold=1)))
        out.append((Life(name=f"{f}-stolen", functions=(f,), plan=[(0, "add", "a", f, 0.2), (0, "add", "b", f, 0.1)], stolen_first=True, settle=12.0), Bounds(0)))
    out.append((Life(name="all", functions=kinds, plan=[(0.3 + 0.01 * i, "add", f, f, 0.2) for i, f in enumerate(kinds)] + [(0.9 + 0.01 * i, "add", f + "2", f, 0.1, 0.4) for i, f in enumerate(kinds)], workers=2, settle=9.0), Bounds(1 if deep else 0, m=1, hold=1)))
    out += [(Strikes(name=f"strikes-{n}-{i}", first=i, length=n), Bounds(0)) for n in ((1, 2, 3) if not deep else (1, 2, 3, 4)) for i in range(10)]
    out.append((Depths(name="depths-due", due=True, poll=2.5, max_ops=10 ** 6, max_time=1e6), Bounds(0)))
    out.append((Depths(name="depths", max_ops=10 ** 6, max_time=1e6), Bounds(0)))
    return out
