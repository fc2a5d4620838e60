"""C06: cancelled pending tasks never start."""
from props.keyed import *
from mc.explore import Bounds
from props import keyseq

RULE = ("cancel() (alone, or followed at once by a new add()) placed after every state-changing Redis operation of the key's life while it "
        "waits in the future queue, in the ready stream, for a retry, or parked by a concurrency limit, combined with reversals")


class Cancel(Keyed):
    def check(self, env):
        out = []
        key = "k"
        calls = [c for c in self.calls(env) if c["key"] == key]
        cancels = [c for c in calls if c["op"] == "cancel"]
        runs = sorted(self.runs(env, key), key=lambda r: r["start"])
        for c in cancels:
            if c["t1"] is None:
                out.append(("cancel-stuck", "cancel() never returned"))
                continue
            if not [x for x in calls if x["op"] == "add" and x["t1"] is not None and x["t1"] <= c["t0"]]: continue
            seen = self.during(env, c)
            waiting = c["before"] in ("scheduled", "queued") and "running" not in seen
            old = [r for r in runs if r["tag"] == "a"]
            active = [r for r in old if r["start"] <= c["t1"] and (r["end"] is None or r["end"] > c["t0"])]
            late = [r for r in old if r["start"] > c["t0"]]
            if waiting and not active and late:
                out.append((f"started-after-cancel-{c['before']}", f"cancel({key}) returned at {c['t1']} while the task was {c['before']}, yet its body "
                            f"started at {late[0]['start']}; history {[(t, s) for t, k, s in env.data.hist if k == key]}"))
            again = [x for x in calls if x["op"] == "add" and x["t0"] >= c["t1"]]
            if waiting and not active:
                if again:
                    if again[0]["res"] != "SCHEDULED": out.append(("key-not-freed", f"add({key}) right after cancel({key}) reported {again[0]['res']}"))
                elif env.value.get(key) != "cancelled":
                    out.append((f"record-{env.value.get(key)}", f"the cancelled task's record reads {env.value.get(key)}"))
                elif env.value.get("result") != "ExecutionCancelled":
                    out.append(("no-cancel-error", f"waiting for the cancelled task's result gave {env.value.get('result')}"))
        for x in calls:
            if x["op"] == "add" and x["tag"] == "x" and x["res"] == "SCHEDULED":
                g = [r for r in runs if r["tag"] == "x" and r["end"] is not None and r["exc"] is None]
                if len(g) != 1 or len([r for r in runs if r["tag"] == "x"]) != 1:
                    out.append((f"re-added-ran-{len(g)}", f"the task added again under {key} after cancel() ran to completion {len(g)} times; runs {runs}; "
                                f"record {env.value.get(key)}; history {[(t, s) for t, k, s in env.data.hist if k == key]}"))
                elif env.value.get(key) != "completed": out.append(("re-added-record", f"the re-added task completed but its record reads {env.value.get(key)}"))
        if env.value.get("queue"): out.append(("left-over", f"tasks still listed at the end: {env.value['queue']}"))
        if env.value.get("others"): out.append(("other-not-run", f"other tasks did not complete: {env.value['others']}"))
        return out

    async def probe(self, env, d, out):
        e = await d.get_execution("k")
        if e is not None and e.state.value == "cancelled":
            try: out["result"] = repr(await e.get_result(timeout=S(1)))
            except Exception as x: out["result"] = type(x).__name__
        s = await d.snapshot()
        out["queue"] = [x.key for x in s.future] + [x.key for x in s.running]
        out["others"] = [k for k in self.keys if k != "k" and out[k] != "completed"]

    def covered(self, env): return {f"cancel-while-{c['before']}" for c in self.calls(env) if c["op"] == "cancel"}


class Race(Keyed):
    """One client cancels a pending task while others add under its key: what was accepted runs, whatever the retention."""
    def check(self, env):
        out = []
        for c in self.calls(env)[1:]:
            if c["t1"] is None: out.append(("stuck", f"{c['op']} never returned"))
            elif c["op"] == "add":
                r = self.runs(env, "k", c["tag"])
                want = 1 if c["res"] == "SCHEDULED" else 0
                if len(r) != want: out.append((f"ran-{len(r)}-of-{want}", f"add({c['tag']}) reported {c['res']} while the key was being cancelled, and ran {len(r)} times"))
        if self.runs(env, "k", "a"): out.append(("ran", "the cancelled task ran"))
        if sum(c["res"] == "SCHEDULED" for c in self.calls(env)) > 2: out.append(("both", "two add() calls accepted for one key"))
        return out


def work(tier):
    deep = tier == "thorough"
    acts = {"cancel": [("cancel", "k")], "readd": [("cancel", "k"), ("add", "k", "job", "x", 0)]}
    lim = {"cancel": [("cancel", "k")], "readd": [("cancel", "k"), ("add", "k", "limited", "x", 0, 0.3)]}
    later = {"cancel": [("cancel", "k")], "readd": [("cancel", "k"), ("add", "k", "job", "x", 1.0)]}
    b = Bounds(2, m=2 if not deep else 4, inject=1, hold=1)
    b1 = Bounds(1 if not deep else 2, m=3, inject=1, hold=1)
    return [
        (Cancel(name="future", functions=("job",), acts=acts, plan=[(0, "add", "k", "job", "a", 1.0, 0.4)], window=3), b),
        (Cancel(name="future-later", functions=("job",), workers=2, acts=later, plan=[(0, "add", "k", "job", "a", 1.0, 0.4)], window=3), b1),
        (Cancel(name="no-worker-yet", functions=("job",), workers=0, acts=acts, plan=[(0, "add", "k", "job", "a", 0, 0.4)], window=1), b1),
        (Cancel(name="ready-behind-busy", functions=("job",), acts=acts, concurrency=1, keys=("k", "o"),
                plan=[(0, "add", "o", "job", "o", 0, 1.5), (0.1, "add", "k", "job", "a", 0, 0.3)]), b),
        (Cancel(name="due-behind-busy", functions=("job",), acts=acts, concurrency=1, keys=("k", "o"),
                plan=[(0, "add", "o", "job", "o", 0, 2.5), (0.1, "add", "k", "job", "a", 1.0, 0.3)], window=5.0), b1),
        (Cancel(name="retrying", functions=("flaky", "job"), acts=acts, plan=[(0, "add", "k", "flaky", "a", 0, 0.3)]), b1),
        (Cancel(name="retry-behind-busy", functions=("flaky", "job"), acts=acts, concurrency=1, keys=("k", "o"), retry_delay=0.4,
                plan=[(0, "add", "k", "flaky", "a", 0, 0.3), (0.2, "add", "o", "job", "o", 0, 2.5)], window=5.0), b1),
        (Cancel(name="parked", functions=("limited", "job"), acts=acts, keys=("k", "o"), redelivery=6.0, settle=10.0,
                plan=[(0, "add", "o", "limited", "o", 0, 1.6), (0.2, "add", "k", "limited", "a", 0, 0.3)]), b1),
        (Cancel(name="parked-readd", functions=("limited",), acts=lim, keys=("k", "o"), redelivery=6.0, settle=10.0,
                plan=[(0, "add", "o", "limited", "o", 0, 1.6), (0.2, "add", "k", "limited", "a", 0, 0.3)]), b1),
        (Cancel(name="parked-among", functions=("limited",), acts={"cancel": [("cancel", "k")]}, keys=("k", "o", "p"), redelivery=6.0, settle=10.0,
                plan=[(0, "add", "o", "limited", "o", 0, 1.6), (0.2, "add", "k", "limited", "a", 0, 0.3), (0.3, "add", "p", "limited", "p", 0, 0.3)]), b1),
        (Cancel(name="rate-limited", functions=("rated", "job"), acts=acts, keys=("k", "o"), settle=10.0,
                plan=[(0, "add", "o", "rated", "o", 0, 0.2), (0.2, "add", "k", "rated", "a", 0, 0.3)]), b1),
    ] + [(Race(name=f"race-ttl{ttl}-{delay}", ttl=ttl, workers=0, hold_limit=0.2, plan=[(0, "add", "k", "job", "a", delay)], window=2.0, settle=6.0,
               users=[(0.1, [("cancel", "k")]), (0.1, [("add", "k", "job", "x", delay)]), (0.1, [("add", "k", "job", "y", 0)])]),
          Bounds(3 if not deep else 4, m=3, hold=2 if not deep else 3))
         for ttl in (0.0, 1.0, 900.0) for delay in (0, 2.5)] + keyseq.family(("C06",), tier)
