"""C10: retries make exactly the promised attempts at the promised times."""
import itertools
from docket import Retry, ExponentialRetry
from props.keyed import *
from props import keyseq
from mc.explore import Bounds

RULE = ("every setting of attempts, delays and outcomes on a grid (linear, exponential, forced, endless), one and two workers; all sequences of API "
        "calls on a retried key; and cancel, replace, add at every operation between two attempts with reversals of racing operations")
LAT = 0.3


class Grid(World):
    """One function per setting; what each attempt does is given by its plan: '.' fails, 's' succeeds, ('after', s), ('at', s), ('past',)."""
    poll = 0.05
    redelivery = 60.0
    concurrency = 1000
    workers = 1
    part = (0, 1)
    max_ops = 10 ** 7
    max_time = 1e9
    span = 30.0
    stolen_first = False

    def settings(self):
        out = []
        for n in (1, 2, 3, 4):
            for delay in (0.0, 0.4, 1.3):
                for k in range(n + 1): out.append((("linear", n, delay), "." * k + "s"))
        for n in (2, 3, 4, 6):
            for lo, hi in ((0.3, 64.0), (0.3, 0.9), (0.5, 0.5), (1.0, 3.0), (0.0, 1.0)):
                for k in {1, 2, 3, n}: out.append((("expo", n, lo, hi), "." * k + "s"))
        for k in (1, 5, 12): out += [(("forever", 0.2), "." * k + "s"), (("expoforever", 0.1, 0.7), "." * k + "s")]
        for n in (1, 2, 3):
            for a, b in itertools.product([("after", 0.7), ("at", 0.9), ("past", 0), "."], repeat=2):
                out.append((("linear", n, 0.4), [a, b, "s"]))
                out.append((("expo", n, 0.3, 64.0), [a, b, "s"]))
        return out[self.part[0]::self.part[1]]

    def tasks(self, env):
        fns = {}

        def make(i, st, plan):
            kind = st[0]
            r = {"linear": lambda: Retry(attempts=st[1], delay=S(st[2])), "forever": lambda: Retry.forever(delay=S(st[1])),
                 "expo": lambda: ExponentialRetry(attempts=st[1], minimum_delay=S(st[2]), maximum_delay=S(st[3])),
                 "expoforever": lambda: ExponentialRetry.forever(delay=S(st[1]), maximum_delay=S(st[2]))}[kind]()

            async def fn(retry: Retry = r):
                n = env.data.attempts[i] = env.data.attempts.get(i, 0) + 1
                async with body(env, f"t{i}", retry.attempt):
                    await asyncio.sleep(0.1)
                    p = plan[n - 1] if n <= len(plan) else "s"
                    if p == "s": return f"r{i}-{n}"
                    if p == ".": raise ValueError(f"e{i}-{n}")
                    if p[0] == "after": retry.after(S(p[1]))
                    if p[0] == "at": retry.at(utc() + S(p[1]))
                    retry.at(utc() - S(5))
            fn.__name__ = fn.__qualname__ = f"t{i}"
            return fn
        for i, (st, plan) in enumerate(self.settings()): fns[f"t{i}"] = make(i, st, plan)
        return fns

    def promised(self, st, plan):
        """The delays after each failure that is retried, and how the task ends."""
        limit = None if "forever" in st[0] else st[1]
        out, n = [], 1
        while True:
            p = plan[n - 1] if n <= len(plan) else "s"
            if p == "s": return out, "completed"
            if limit is not None and n >= limit: return out, "failed"
            if p == ".":
                k = st[0]
                if k == "linear": d = st[2]
                elif k == "forever": d = st[1]
                elif k == "expo": d = min(st[3], st[2] * 2 ** (n - 1))
                else: d = min(st[2], st[1] * 2 ** (n - 1))
            else: d = 0.0 if p[0] == "past" else p[1]
            out.append(d)
            n += 1

    async def main(self, env):
        env.data.attempts = {}
        sets = self.settings()
        async with self.client(env) as d:
            if not self.stolen_first:
                for n in range(self.workers): self.start_worker(env, f"w{n}")
                await asyncio.sleep(0.3)
            for i in range(len(sets)): await d.add(d.fns[f"t{i}"], key=f"k{i}")()
            if self.stolen_first:
                # the first attempts are redelivered after the death of a worker
                await self.stolen(env)
                for n in range(self.workers): self.start_worker(env, f"w{n}")
            await asyncio.sleep(self.span)
            out = []
            for i in range(len(sets)):
                e = await d.get_execution(f"k{i}")
                try: r = await e.get_result(timeout=S(0.2))
                except Exception as x: r = f"{type(x).__name__}:{x}"
                out.append((e.state.value, r))
            return out

    def check(self, env):
        out = []
        runs = {}
        for e in env.events:
            if e[2] == "start": runs.setdefault(e[3], []).append([e[0], None, e[5], e[4]])
            elif e[2] == "finish":
                for r in runs[e[3]]:
                    if r[3] == e[4]: r[1] = e[0]
        for i, (st, plan) in enumerate(self.settings()):
            delays, end = self.promised(st, plan)
            r = runs.get(f"t{i}", [])
            what = f"{st} with attempts doing {plan}"
            kind = st[0]
            if [x[2] for x in r] != list(range(1, len(delays) + 2)):
                out.append((f"attempts-{kind}", f"{what}: attempts numbered {[x[2] for x in r]}, expected 1..{len(delays) + 1}"))
                continue
            for a, b, dl in zip(r, r[1:], delays):
                gap = b[0] - a[1]
                if not dl - 0.0005 <= gap <= dl + LAT: out.append((f"delay-{kind}", f"{what}: attempt {b[2]} came {gap:.4f} s after the failure, expected {dl}"))
            state, res = env.value[i]
            if state != end: out.append((f"record-{kind}-{state}", f"{what}: the record reads {state}, expected {end}"))
            n = len(r)
            if end == "completed" and res != f"r{i}-{n}": out.append((f"result-{kind}", f"{what}: the result reads {res}"))
            p = plan[n - 1]
            if end == "failed" and p == "." and res != f"ValueError:e{i}-{n}": out.append((f"result-{kind}", f"{what}: the result reads {res}"))
        return out

    def counts(self, env): return len(self.settings()), sum(len(self.promised(*s)[0]) + 1 for s in self.settings())


class Endless(World):
    """Retrying forever goes on for as long as it takes, at the maximum delay in the end."""
    poll = 1.0
    n = 80
    max_time = 1e9
    max_ops = 10 ** 6

    def tasks(self, env):
        n = self.n

        async def fn(retry: Retry = ExponentialRetry.forever(delay=S(1), maximum_delay=S(8))):
            async with body(env, "k", retry.attempt):
                if retry.attempt < n: raise ValueError()
        return {"fn": fn}

    async def main(self, env):
        async with self.client(env) as d:
            self.start_worker(env, "w")
            await d.add(d.fns["fn"], key="k")()
            await asyncio.sleep(self.n * 10)
            return (await d.get_execution("k")).state.value

    def check(self, env):
        at = [e[5] for e in starts(env)]
        t = [e[0] for e in starts(env)]
        out = []
        if at != list(range(1, self.n + 1)): out.append(("gave-up", f"retrying forever, attempts made: {len(at)} of {self.n}, the record reads {env.value}"))
        for i, (a, b) in enumerate(zip(t, t[1:])):
            if not min(8, 2 ** i) - 0.001 <= b - a <= min(8, 2 ** i) + 3: out.append(("delay", f"attempt {i + 2} came {b - a} s after the one before"))
        return out


class Between(Keyed):
    """The API called at every operation of a task that is retried."""
    functions = ("flaky",)
    retry_delay = 1.0
    attempts = 3
    window = 5.0
    settle = 6.0

    def check(self, env):
        out = []
        calls = self.calls(env)
        if any(c["n"] == 1 and c["res"] == "ALREADY_SCHEDULED" for c in calls): return []          # the other add() came first
        user = [c for c in calls if c["n"] > 1]
        slack = 0.001
        for c in user:
            if c["t1"] is None: return [("stuck", f"{c['op']} never returned")]
        r = self.runs(env, "k", "a")
        cut = [c for c in user if c["op"] in ("cancel", "replace") and (c["op"] == "replace" or set(self.during(env, c)) & set(LIVE))]
        adds = [c for c in user if c["op"] == "add"]
        # attempts come in order, one at a time, no earlier than promised
        for a, b in zip(r, r[1:]):
            if a["end"] is None or b["start"] < a["end"] + self.retry_delay - slack:
                out.append(("early", f"an attempt started at {b['start']}, the one before ended at {a['end']}"))
        if len(r) > self.attempts: out.append(("too-many", f"{len(r)} attempts of {self.attempts}"))
        if not cut:
            if len(r) != self.attempts or any(x["end"] is None for x in r) or [x["exc"] for x in r] != ["ValueError"] * (self.attempts - 1) + [None]:
                out.append(("attempts", f"attempts: {r}"))
            else:
                for a, b in zip(r, r[1:]):
                    if b["start"] > a["end"] + self.retry_delay + 2 * self.poll + 0.1 + self.hold_limit * env.nheld:
                        out.append(("late", f"an attempt started at {b['start']}, the one before ended at {a['end']}"))
            if env.value["k"] != "completed": out.append((f"record-{env.value['k']}", f"after {len(r)} attempts the record reads {env.value['k']}"))
        first = min([c["t1"] for c in cut], default=None)
        for c in cut:
            later = [x for x in r if x["start"] > c["t1"] and not (c["op"] == "cancel" and c["before"] in FINAL + (None,))]
            if later: out.append((f"continued-after-{c['op']}", f"after {c['op']}() had returned at {c['t1']} another attempt started at {later[0]['start']}"))
        for c in adds:
            ended = r[-1]["end"] if r and r[-1]["end"] is not None and (r[-1]["exc"] is None or len(r) == self.attempts) else None
            if c["res"] == "SCHEDULED" and not cut and (ended is None or c["t1"] < ended):
                out.append(("key-lost", f"add() was accepted at {c['t0']} between the attempts {[(x['start'], x['end']) for x in r]}"))
            if c["res"] != "SCHEDULED" and self.runs(env, "k", c["tag"]): out.append(("refused-but-ran", "a refused add() ran"))
        return out

    def covered(self, env): return {f"{c['op']}-while-{c['before']}" for c in self.calls(env)[1:]}


def work(tier):
    deep = tier == "thorough"
    acts = {"cancel": [("cancel", "k")], "add": [("add", "k", "flaky", "x", 0)], "replace": [("replace", "k", "flaky", "r", 0)]}
    b = Bounds(1 if not deep else 2, m=3, inject=1, hold=1)
    b2 = Bounds(2, m=1 if not deep else 3, inject=1, hold=1)
    plan = [(0, "add", "k", "flaky", "a", 0)]
    return [(Grid(name=f"grid-{w}-{i}", workers=w, part=(i, 4)), Bounds(depth=0)) for w in (1, 2) for i in range(4)] + [
        (Grid(name=f"grid-redelivered-{i}", stolen_first=True, redelivery=3.0, span=36.0, part=(i, 2)), Bounds(depth=0)) for i in range(2)] + [
        (Endless(name="endless"), Bounds(depth=0)),
        (Between(name="between", acts=acts, plan=plan), b2),
        (Between(name="between-two-workers", acts=acts, plan=plan, workers=2), b),
        (Between(name="between-now", acts=acts, plan=plan, retry_delay=0.0, window=3.0), b),
        (Between(name="between-now-two-workers", acts=acts, plan=plan, retry_delay=0.0, workers=2, window=3.0), b),
        (Between(name="between-two-attempts", acts=acts, plan=plan, attempts=2, window=3.0), b2),
    ] + keyseq.family(("C10",), tier, only="flaky")
