"""C19: a task's recorded states and events follow its real life cycle."""
from docket.execution import Execution
from props.keyed import *
from mc.explore import Bounds

RULE = ("one key through its life (run, failure, retry, parking, rate limit, perpetual), read after every operation and followed through a subscription; a user "
        "adding, replacing and cancelling at every operation; all placements of holds and reversals; worker deaths")
NEXT = {None: ("scheduled", "queued"), "scheduled": ("queued", "running", "cancelled"), "queued": ("running", "cancelled"),
        "running": ("scheduled", "queued", "completed", "failed", "cancelled"), "completed": (), "failed": (), "cancelled": ()}


class Life(Keyed):
    poll = 0.4
    hold_limit = 1.0
    window = 3.0
    settle = 5.0
    redelivery = 4.0
    victims = ()

    def tasks(self, env):
        fns = super().tasks(env)
        if "chain" in self.functions:
            async def chain(name: str, tag: str, secs: float, p: Perpetual = Perpetual(every=S(0.8))):
                async with body(env, name, tag):
                    p.perpetuate(name, tag, secs)
                    await asyncio.sleep(secs)
                    env.data.chain = getattr(env.data, "chain", 0) + 1
                    if env.data.chain >= 3: p.cancel()
                    if self.bad and env.data.chain == 2: raise ValueError("sometimes")
            fns["chain"] = chain
        return fns

    bad = False

    def allow_crash(self, op, env): return op.proc in self.victims

    def watch(self, env):
        hist = env.data.hist = []
        last = {k: None for k in self.keys}

        def hook(op):
            if not any(w for _, _, w in op.acc): return
            for k in self.keys:
                s = self.state(env, k)
                if s != last[k]:
                    last[k] = s
                    hist.append((env.t(), k, s))
                    env.ev("rec", k, s)
        env.step_hooks.append(hook)
        for k in self.keys: env.spawn(f"obs-{k}", self.observe(env, k))

    async def observe(self, env, key):
        async with self.client(env) as d:
            e = Execution(d, d.fns[self.functions[0]], (), {}, key, utc(), 1)
            n = 0
            async for x in e.subscribe():
                n += 1
                if x["type"] == "state" and n > 1: env.ev("event", key, x["state"].value)

    def check(self, env):
        out = []
        dead = evs(env, "crash")
        for k in self.keys:
            cur, tag, active, ended, last = None, None, {}, {}, None
            calls = [c for c in self.calls(env) if c["key"] == k]
            meddling = [c for c in calls if c["op"] in ("replace", "cancel", "clear")]
            open_, trace, evlast, finals, claims = set(), [], None, {}, 0
            since_claim = []            # calls that may have touched the key since it was claimed
            nsched = 0
            for e in env.events:
                t, p, what = e[:3]
                if what in ("call", "ret") and e[5 if what == "call" else 5] == k:
                    trace.append((round(t, 3), e[4] + ("(" if what == "call" else ")")))
                    if what == "call":
                        open_.add((e[3], e[4]))
                        since_claim.append(e[4])
                    else:
                        open_.discard((e[3], e[4]))
                        if e[4] in ("add", "replace") and e[9] == "SCHEDULED": tag = e[6]; nsched += 1
                elif what == "start" and e[3] == k:
                    trace.append((round(t, 3), f"start{e[4]}"))
                    active[e[4]] = e[5]
                    if cur != "running" and not set(since_claim) & {"replace", "cancel", "clear"} and not ({o for _, o in open_} & {"replace", "cancel", "clear"}):
                        out.append((f"start-while-{cur}", f"{k!r}: the body starts while the record reads {cur}: {trace}"))
                elif what == "finish" and e[3] == k:
                    trace.append((round(t, 3), f"finish{e[4]}"))
                    ended[e[4]] = active.pop(e[4])
                elif what == "crash":
                    trace.append((round(t, 3), f"{p} dies"))
                    active = {n: g for n, g in active.items() if [x for x in starts(env, k) if x[4] == n][0][1] != p}
                elif what == "rec" and e[3] == k:
                    s = e[4]
                    trace.append((round(t, 3), f"={s}"))
                    ops = {o for _, o in open_}
                    ok = s in NEXT[cur] or (s in ("scheduled", "queued") and ops & {"add", "replace"}) or (s is None and cur in ("completed", "failed", "cancelled", None))
                    if cur == "scheduled" and s == "scheduled": ok = True
                    if cur == "cancelled" and s in ("completed", "failed") and ("cancel" in since_claim): ok = True         # the run ended before the cancellation reached it
                    if cur == "running" and s in ("scheduled", "queued") and not ops & {"add", "replace"} and active and not dead and "replace" not in since_claim:
                        out.append(("rescheduled-while-running", f"{k!r}: {trace}"))
                    if not ok: out.append((f"record-{cur}-{s}", f"{k!r}: the record goes from {cur} to {s}: {trace}"))
                    if s in ("completed", "failed") and tag in active.values() and not dead: out.append((f"final-while-running", f"{k!r}: the record reads {s} while the body runs: {trace}"))
                    if s == "running": since_claim = list(o for _, o in open_)
                    cur = s
                elif what == "event" and e[3] == k:
                    s = e[4]
                    trace.append((round(t, 3), f"!{s}"))
                    if s in ("completed", "failed", "cancelled"): finals[s] = finals.get(s, 0) + 1
                    if s in ("completed", "failed") and evlast in ("completed", "failed") and not meddling and "chain" not in self.functions: out.append(("event-final-twice", f"{k!r}: {trace}"))
                    if s == "running": claims += 1
                    evlast = s
            if not dead:
                # one announcement per ended run: retried, parked and postponed runs announce their new schedule instead
                runs = self.runs(env, k)
                n = {"completed": 0, "failed": 0, "cancelled": 0}
                fn = self.plan[0][3]
                for r in runs:
                    if r["end"] is None: continue
                    if r["exc"] == "CancelledError": n["cancelled"] += 1
                    elif r["exc"] is None: n["completed"] += 1
                    else: n["failed"] += 1
                retried = len(runs) if fn == "flaky" else 0
                if not meddling:
                    if fn == "flaky": n["failed"] = max(0, n["failed"] - (self.attempts - 1))
                    got = {s: finals.get(s, 0) for s in n}
                    if got != n: out.append(("announced", f"{k!r}: final states announced {got}, runs ended {n}: {trace}"))
                else:
                    for s in ("completed", "failed"):
                        hi = n[s]
                        lo = hi if fn != "flaky" or s == "completed" else 0
                        # a cancellation may strike after the body, while the outcome is being recorded
                        lo -= len([c for c in meddling if c["op"] == "cancel"])
                        if not lo <= finals.get(s, 0) <= hi: out.append(("announced", f"{k!r}: {s} announced {finals.get(s, 0)} times, {hi} runs ended so: {trace}"))
                    hi = len([c for c in meddling if c["op"] == "cancel"])
                    idle = max(0, claims - len(runs))        # claimed, and stopped before the body began
                    if finals.get("cancelled", 0) > hi + n["cancelled"] + idle: out.append(("announced", f"{k!r}: cancelled announced {finals.get('cancelled', 0)} times for {hi} cancellations: {trace}"))
                    want = self.must_cancel(env, k)
                    if finals.get("cancelled", 0) < want: out.append(("cancel-unannounced", f"{k!r}: cancelled announced {finals.get('cancelled', 0)} times, {want} cancellations took effect: {trace}"))
            if not dead and not meddling:
                # those who listen learn of every change of the record, in order
                told = [e[4] for e in evs(env, "event") if e[3] == k]
                took = [s for _, kk, s in env.data.hist if kk == k and s]
                if "chain" in self.functions: told, took = [[s for s in l if s not in FINAL] for l in (told, took)]        # a successor's record takes the place of the outcome's
                drop = lambda l: [s for i, s in enumerate(l) if not i or s != l[i - 1]]
                if drop(told) != drop(took): out.append(("unannounced", f"{k!r}: the record went through {took}, announced was {told}: {trace}"))
        seen = set()
        return [x for x in out if not (x[0] in seen or seen.add(x[0]))]

    def must_cancel(self, env, k):
        """Cancellations that took the record from a waiting state to cancelled."""
        n, prev = 0, None
        for t, kk, s in env.data.hist:
            if kk != k: continue
            if s == "cancelled" and prev in ("scheduled", "queued"): n += 1
            prev = s
        return n

    def covered(self, env):
        return {f"{a}-{b}" for (_, k, a), (_, k2, b) in zip(env.data.hist, env.data.hist[1:]) if k == k2}


ACTS = {"add": (("add", "k", "job", "x"),), "replace": (("replace", "k", "job", "x"),), "later": (("replace", "k", "job", "x", 0.7),), "cancel": (("cancel", "k"),),
        "cancel-add": (("cancel", "k"), ("add", "k", "job", "x"))}


def work(tier):
    deep = tier == "thorough"
    out = []
    b = Bounds(1 if not deep else 2, m=2, hold=1)
    for fn in ("job", "fails", "flaky", "limited", "rated"):
        for delay in (0, 0.6):
            for w in (1, 2):
                plan = [(0, "add", "k", fn, "a", delay, 0.3)]
                keys = ("k",)
                if fn in ("limited", "rated"):
                    plan = [(0, "add", "h", fn, "h", 0, 0.6)] + [(0.1, "add", "k", fn, "a", delay, 0.3)]
                    keys = ("h", "k")
                fns = (fn, "job") if fn != "job" else ("job",)
                acts = {n: a for n, a in ACTS.items()}
                if w == 1 or deep:
                    out.append((Life(name=f"user-{fn}-{delay}-{w}", functions=fns, plan=plan, keys=keys, workers=w, acts=acts, settle=7.0), Bounds(1, m=2, inject=1)))
                if w == 2 or deep:
                    out.append((Life(name=f"race-{fn}-{delay}-{w}", functions=fns, plan=plan, keys=keys, workers=w), b))
    # the reply to an operation takes long, and a cancellation arrives meanwhile
    for fn in ("job", "fails", "flaky"):
        out.append((Life(name=f"late-{fn}", functions=(fn,), plan=[(0, "add", "k", fn, "a", 0, 0.3)], acts={"cancel": ACTS["cancel"]}, settle=7.0), Bounds(2, m=0, lm=3 if not deep else 6, inject=1, late=1)))
    # several fall due between two looks of the scheduler
    for fn in ("job", "flaky", "rated"):
        for w in (1, 2):
            out.append((Life(name=f"together-{fn}-{w}", functions=(fn,), plan=[(0, "add", k, fn, k, 0.6, 0.1) for k in "abc"], keys=tuple("abc"), workers=w, settle=10.0), Bounds(1 if deep else 0, m=1, hold=1)))
    for bad in (False, True):
        out.append((Life(name=f"chain-{bad}", functions=("chain",), bad=bad, plan=[(0, "add", "k", "chain", "a", 0, 0.2)], workers=2), b))
    for fn in ("job", "flaky"):
        out.append((Life(name=f"death-{fn}", functions=(fn,), workers=2, victims=("w1",), settle=12.0, plan=[(0, "add", "k", fn, "a", 0, 0.3)]), Bounds(1, m=0, crash=1)))
    return out
