"""C05: the latest replace() wins."""
from props.keyed import *
from mc.explore import Bounds
from props import keyseq

RULE = ("replace() (at once, for later, twice) placed after every state-changing Redis operation of the key's life, whatever way the "
        "superseded run ends (return, exception, retry, parking, rate limiting), combined with reversals of racing operations")


class Replace(Keyed):
    must_start = True           # a free worker slot exists throughout, so the replacement must start promptly

    def check(self, env):
        out = []
        calls = self.calls(env)
        key = "k"
        reps = [c for c in calls if c["op"] == "replace" and c["key"] == key]
        for c in reps:
            if c["t1"] is None: out.append(("replace-stuck", f"replace({key}, {c['tag']}) never returned"))
        reps = [c for c in reps if c["t1"] is not None]
        if not reps: return out
        allruns = sorted(self.runs(env, key), key=lambda r: r["start"])
        for c in reps:
            older = [x["tag"] for x in calls if x["key"] == key and x["op"] in ("add", "replace") and x is not c
                     and x["t1"] is not None and x["t1"] <= c["t0"]]
            old = [r for r in allruns if r["tag"] in older]
            going = [r for r in old if r["start"] <= c["t1"] and (r["end"] is None or r["end"] > c["t0"])]
            late = [r for r in old if r["start"] > c["t1"]]
            allowed = 1 if "running" in self.during(env, c) and not going else 0
            if len(late) > allowed:
                out.append(("old-started", f"after replace({key}, {c['tag']}) returned at {c['t1']} the replaced schedule {late[-1]['tag']!r} "
                            f"started at {late[-1]['start']}; recorded states during the call: {self.during(env, c)}"))
            for r in going:
                if r["exc"] == "CancelledError": out.append(("old-interrupted", f"the run going on at replace({key}) was interrupted: {r}"))
        last = max(reps, key=lambda c: c["t0"])
        if any(o is not last and o["t1"] > last["t0"] for o in reps): return out       # overlapping replaces: order unknown
        mine = [r for r in allruns if r["tag"] == last["tag"]]
        good = [r for r in mine if r["exc"] is None and r["end"] is not None]
        if len(mine) != 1 or len(good) != 1:
            out.append((f"replacement-ran-{len(mine)}-{len(good)}", f"the replacement {last['tag']!r} started {len(mine)} and completed "
                        f"{len(good)} times (its record: {env.value.get(key)}); recorded states {[(t, s) for t, k, s in env.data.hist if k == key]}"))
        else:
            due = last["t0"] + self.delays.get(last["tag"], 0)
            if mine[0]["start"] < due - 0.001:
                out.append(("early", f"the replacement was due at {due} but started at {mine[0]['start']}"))
            lim = max(due, last["t1"]) + 2 * self.poll + 0.5 + self.hold_limit * env.nheld
            if self.must_start and mine[0]["start"] > lim:
                out.append(("late", f"the replacement was due at {due} but started only at {mine[0]['start']}"))
            if env.value.get(key) != "completed": out.append((f"record-{env.value.get(key)}", f"the replacement completed but the record reads {env.value.get(key)}"))
            elif env.value.get("args") not in (None, last["tag"]):
                out.append(("record-args", f"the record shows the arguments of {env.value['args']!r}, not of the replacement"))
            if env.value.get("result") not in (None, last["tag"]):
                out.append(("result", f"the result under the key is {env.value['result']!r} instead of the replacement's"))
        return out

    delays = {"l": 1.0, "m": 1.0}

    async def probe(self, env, d, out):
        if out.get("k") in FINAL:
            e = await d.get_execution("k")
            out["args"] = e.args[1]
            if e.state.value == "completed":
                try: out["result"] = await e.get_result(timeout=S(1))
                except Exception as x: out["result"] = repr(x)

    def covered(self, env): return {f"replace-while-{c['before']}" for c in self.calls(env) if c["op"] == "replace"}


def work(tier):
    deep = tier == "thorough"
    acts = {"now": [("replace", "k", "job", "r", 0)], "later": [("replace", "k", "job", "l", 1.0)]}
    twice = {"twice": [("replace", "k", "job", "q", 0.6), ("replace", "k", "job", "m", 1.0)]}
    b = Bounds(2, m=2 if not deep else 4, inject=1, hold=1)
    b1 = Bounds(1 if not deep else 2, m=3, inject=1, hold=1)
    w = [
        (Replace(name="future", functions=("job",), acts=acts, plan=[(0, "add", "k", "job", "a", 1.0, 0.4)], window=3), b),
        (Replace(name="immediate-two-workers", functions=("job",), workers=2, acts=acts, plan=[(0, "add", "k", "job", "a", 0, 0.6)], window=2.5), b),
        (Replace(name="ready-behind-busy", functions=("job",), acts=acts, concurrency=1, keys=("k", "o"), must_start=False,
                 plan=[(0, "add", "o", "job", "o", 0, 1.5), (0.1, "add", "k", "job", "a", 0, 0.3)]), b1),
        (Replace(name="due-behind-busy", functions=("job",), acts=acts, concurrency=1, keys=("k", "o"), must_start=False,
                 plan=[(0, "add", "o", "job", "o", 0, 2.5), (0.1, "add", "k", "job", "a", 1.0, 0.3)], window=5.0), b1),
        (Replace(name="retrying", functions=("flaky", "job"), acts=acts, plan=[(0, "add", "k", "flaky", "a", 0, 0.3)]), b),
        (Replace(name="retrying-at-once", functions=("flaky", "job"), acts=acts, retry_delay=0, attempts=3,
                 plan=[(0, "add", "k", "flaky", "a", 0, 0.3)]), b1),
        (Replace(name="failing", functions=("fails", "job"), acts=acts, plan=[(0, "add", "k", "fails", "a", 0, 0.6)], window=2.5), b1),
        (Replace(name="parked", functions=("limited", "job"), acts=acts, keys=("k", "o"),
                 plan=[(0, "add", "o", "limited", "o", 0, 1.6), (0.2, "add", "k", "limited", "a", 0, 0.3)]), b1),
        (Replace(name="parked-again", functions=("limited",), acts={"now": [("replace", "k", "limited", "r", 0)]}, keys=("k", "o"), must_start=False,
                 plan=[(0, "add", "o", "limited", "o", 0, 1.6), (0.2, "add", "k", "limited", "a", 0, 0.3)]), b1),
        (Replace(name="rate-limited", functions=("rated", "job"), acts=acts, keys=("k", "o"), settle=10.0,
                 plan=[(0, "add", "o", "rated", "o", 0, 0.2), (0.2, "add", "k", "rated", "a", 0, 0.3)]), b1),
        (Replace(name="twice", functions=("job",), acts=twice, plan=[(0, "add", "k", "job", "a", 0.8, 0.4)], window=4), b1),
        (Replace(name="two-replacers", functions=("job",), plan=[(0, "add", "k", "job", "a", 0.6, 0.4)], window=4,
                 users=[(0.3, [("replace", "k", "job", "r", 0)]), (0.5, [("replace", "k", "job", "l", 1.0)])]), Bounds(2, m=3, hold=2)),
    ]
    return w + keyseq.family(("C05",), tier)
