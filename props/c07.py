"""C07: cancelling a running task."""
from props.keyed import *
from mc.explore import Bounds
from props import keyseq

RULE = ("cancel() of one of several running tasks placed after every state-changing Redis operation of two workers, including runs of a key "
        "that was replaced or cancelled and added again, combined with reversals of racing operations")


class CancelRunning(Keyed):
    grace = 1.0
    same_key = False

    def check(self, env):
        out = []
        calls = self.calls(env)
        for c in [c for c in calls if c["op"] == "cancel"]:
            if c["t1"] is None:
                out.append(("cancel-stuck", "cancel() never returned"))
                continue
            key = c["key"]
            tag = self.current(calls, key, c)
            if c["before"] != "running" or tag is None: continue
            lim = c["t1"] + self.grace + self.hold_limit * env.nheld
            started = [r for r in self.runs(env, key, tag) if r["start"] <= c["t0"] and (r["end"] is None or r["end"] >= c["t0"])]
            for r in started:
                if r["end"] is None or r["end"] > lim:
                    out.append(("not-interrupted", f"cancel({key}) at {c['t0']} did not stop the run {r}"))
                elif r["exc"] not in (None, "CancelledError"): out.append(("odd-end", f"the cancelled run ended with {r}"))
            if started and any(r["exc"] == "CancelledError" for r in started):
                again = [x for x in calls if x["key"] == key and x["op"] in ("add", "replace") and x["t0"] >= c["t0"] and x["res"] == "SCHEDULED"]
                if not again and env.value[key] != "cancelled":
                    out.append((f"record-{env.value[key]}", f"{key} was cancelled while running but its record reads {env.value[key]}"))
                n = len([e for e in evs(env, "cleanup") if e[3] == key and e[4] == tag])
                if n != 1: out.append((f"cleanup-{n}", f"the cleanup of the cancelled run of {key} ran {n} times"))
                if [r for r in self.runs(env, key, tag) if r["start"] > c["t1"]]:
                    out.append(("restarted", f"the cancelled task {key} was started again"))
        cancelled = {c["key"] for c in calls if c["op"] == "cancel"}
        for k in self.keys:
            for r in self.runs(env, k):
                if k not in cancelled and (r["end"] is None or r["exc"] is not None):
                    out.append(("other-interrupted", f"a task that was not cancelled was disturbed: {k} {r}"))
            if k not in cancelled and env.value[k] != "completed": out.append((f"other-{env.value[k]}", f"the other task {k} ends as {env.value[k]}"))
        for c in calls:
            if c["op"] == "add" and c["tag"] == "x":
                # judged only if the cancel before it found the key's schedule in place, and no other add is under way
                cs = [o for o in calls if o["op"] == "cancel" and o["key"] == c["key"] and o["n"] < c["n"] and o["t1"] is not None and o["t1"] <= c["t0"]]
                if not cs or self.current(calls, c["key"], cs[-1]) is None: continue
                if any(o is not c and o["key"] == c["key"] and o["op"] != "cancel" and (o["t1"] is None or o["t1"] > cs[-1]["t0"]) and
                       o["t0"] <= (c["t1"] or 1e9) for o in calls): continue
            if c["op"] == "add" and c["tag"] == "x" and c["res"] == "SCHEDULED":
                rs = self.runs(env, c["key"], "x")
                if len(rs) != 1 or rs[0]["end"] is None or rs[0]["exc"] is not None:
                    out.append(("readd", f"the task added again under {c['key']} after cancelling did not run exactly once: {rs}, record {env.value[c['key']]}"))
            if c["op"] == "add" and c["tag"] == "x" and c["res"] not in ("SCHEDULED",):
                out.append(("key-not-freed", f"the key cannot be used again after cancel(): {c['res']}"))
        for k in self.keys:
            if env.value[k] not in FINAL: out.append((f"unsettled-{env.value[k]}", f"the record of {k} never settles: {env.value[k]}"))
            if env.value.get("probe-" + k, 0) != 0: out.append(("key-unusable", f"the key {k} cannot be reused: {env.value['probe-' + k]}"))
        return out

    def current(self, calls, key, c):
        """The tag of the schedule current when the cancel was called."""
        prior = [x for x in calls if x["key"] == key and x["op"] in ("add", "replace") and x["res"] == "SCHEDULED" and x["t1"] is not None and x["t1"] <= c["t0"]]
        return prior[-1]["tag"] if prior else None

    async def probe(self, env, d, out):
        for k in self.keys:
            e = await d.add(d.fns["cleanup"], key=k)(k, "probe", 0.1)
            if e.disposition.name != "SCHEDULED": out["probe-" + k] = e.disposition.name
        await asyncio.sleep(3)
        for k in self.keys:
            if "probe-" + k not in out:
                rs = self.runs(env, k, "probe")
                out["probe-" + k] = 0 if len(rs) == 1 and rs[0]["exc"] is None and rs[0]["end"] is not None else f"ran {rs}"

    def covered(self, env): return {f"cancel-{c['key']}-while-{c['before']}" for c in self.calls(env) if c["op"] == "cancel"}


def work(tier):
    deep = tier == "thorough"
    F = ("cleanup",)
    b = Bounds(2, m=2 if not deep else 4, inject=1, hold=1)
    b1 = Bounds(1 if not deep else 2, m=3, inject=1, hold=1)
    c = {"cancel": [("cancel", "k")]}
    ca = {"cancel": [("cancel", "k")], "readd": [("cancel", "k"), ("add", "k", "cleanup", "x", 0, 0.3)]}
    two = {"kk": [("cancel", "k"), ("cancel", "k")], "ko": [("cancel", "k"), ("cancel", "o")]}
    return [
        (CancelRunning(name="one-of-two", functions=F, acts=ca, keys=("k", "o"), workers=2,
                       plan=[(0, "add", "k", "cleanup", "a", 0, 1.2), (0.05, "add", "o", "cleanup", "o", 0, 1.5)], window=3), b),
        (CancelRunning(name="same-worker-full", functions=F, acts=dict(c, **two), keys=("k", "o"), concurrency=2,
                       plan=[(0, "add", "k", "cleanup", "a", 0, 1.2), (0.05, "add", "o", "cleanup", "o", 0, 1.5)], window=3), Bounds(1, m=3, inject=1, hold=1)),
        (CancelRunning(name="alone-full", functions=F, acts=c, concurrency=1, keys=("k", "o"),
                       plan=[(0, "add", "k", "cleanup", "a", 0, 1.2), (0.05, "add", "o", "cleanup", "o", 0, 0.5)], window=3), Bounds(1, m=3, inject=1, hold=1)),
        (CancelRunning(name="same-worker", functions=F, acts=dict(c, **two), keys=("k", "o"),
                       plan=[(0, "add", "k", "cleanup", "a", 0, 1.2), (0.05, "add", "o", "cleanup", "o", 0, 1.5)], window=3), b1),
        # the key's older run (superseded) is still going on, or ends, while the newer one is cancelled
        (CancelRunning(name="newer-of-two-runs", functions=F, acts=c,
                       plan=[(0, "add", "k", "cleanup", "a", 0, 1.0), (0.4, "replace", "k", "cleanup", "r", 0, 3.0)], window=5), b1),
        (CancelRunning(name="newer-of-two-runs-2", functions=F, acts=c, workers=2,
                       plan=[(0, "add", "k", "cleanup", "a", 0, 1.0), (0.4, "replace", "k", "cleanup", "r", 0, 3.0)], window=5), b1),
        (CancelRunning(name="after-readd", functions=F, acts=c, poll=0.25,
                       plan=[(0, "add", "k", "cleanup", "a", 0, 3.0), (0.6, "cancel", "k"), (0.6, "add", "k", "cleanup", "r", 0, 3.0)], window=5), b1),
        # cancellations that concern nobody arrive around it
        (CancelRunning(name="among-others-idle", functions=F, acts={"z": [("cancel", "z")]}, poll=0.05, window=3,
                       plan=[(0, "cancel", "z"), (0.02, "add", "k", "cleanup", "a", 0, 2.0), (0.06, "cancel", "k")]), b1),
        (CancelRunning(name="among-others", functions=F, acts={"zk": [("cancel", "z"), ("cancel", "k")], "kz": [("cancel", "k"), ("cancel", "z")]},
                       keys=("k", "o"), plan=[(0, "add", "o", "cleanup", "o", 0, 2.0), (0.4, "add", "k", "cleanup", "a", 0, 2.0)], window=4), b1),
        (CancelRunning(name="long-heartbeats", functions=F, acts=ca, keys=("k", "o"), redelivery=2.0, hold_limit=0.5,
                       plan=[(0, "add", "k", "cleanup", "a", 0, 5.0), (0.05, "add", "o", "cleanup", "o", 0, 5.5)], window=6), b1),
    ] + keyseq.family(("C07",), tier)
