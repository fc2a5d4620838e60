"""C15: a task held back by a concurrency limit always gets its turn."""
from props.limits import *

RULE = ("races of parking, releasing, waking, cancelling and replacing on up to three workers with all placements of holds and reversals; users cancelling, "
        "replacing, re-adding and adding at every operation; deaths of slot holders before and after every operation")


class Turn(Limits):
    def check(self, env):
        out = self.times(env) + self.starved(env)
        runs, calls, dead = self.history(env)
        for k, s in env.value.items():
            last = [x for x in calls if x["key"] == k and (x["op"] == "cancel" or x["res"] == "SCHEDULED")]
            if len([x for x in last if x["op"] != "cancel"]) == 1 and s not in ("completed", "cancelled") and not out:
                out.append((f"record-{s}", f"{k!r} reads {s} at the end; calls {[(x['op'], x['t0']) for x in calls]}; runs {[(r['key'], r['start'], r['end']) for r in runs]}"))
        return out


def work(tier):
    deep = tier == "thorough"
    out = []
    A = lambda at, k, **kw: (at, kw.get("op", "add"), k, kw.get("fn", "lim"), kw.get("conc", "x"), kw.get("secs", 0.3))
    three = (A(0, "a"), A(0, "b"), A(0.05, "c"))
    for form in ("default", "annotated", "task"):
        out.append((Turn(name=f"race-{form}", form=form, plan=three, window=1.6, settle=4.0, workers=1 if form == "annotated" else 2),
                    Bounds(2, m=2 if not deep else 3, hold=2) if form == "default" or deep else Bounds(1, m=3, hold=1)))
    out.append((Turn(name="limit-2", limit=2, plan=three + (A(0.05, "d"), A(0.4, "e"))), Bounds(1 if not deep else 2, m=3, hold=2)))
    out.append((Turn(name="two-keys", plan=(A(0, "a"), A(0, "b"), A(0.05, "c", conc="y"), A(0.05, "d", conc="y"))), Bounds(1, m=2, hold=1)))
    out.append((Turn(name="one-slot-workers", slots=1, plan=three + (A(0.1, "d"),)), Bounds(1, m=2, hold=1)))
    out.append((Turn(name="retries", plan=(A(0, "a", fn="flaky"), A(0, "b", fn="flaky"), A(0.2, "c"))), Bounds(1, m=3, hold=1)))
    out.append((Turn(name="chain", plan=(A(0, "a", fn="chain", secs=0.5), A(0, "b", secs=0.8), A(0.2, "c"))), Bounds(1, m=2, hold=1)))
    out.append((Turn(name="scheduled", plan=(A(0, "a", op="later"), A(0, "b", op="later"), A(0.3, "c"))), Bounds(1, m=2, hold=1)))
    # many parked tasks
    out.append((Turn(name="many", plan=tuple(A(0.02 * i, f"k{i}", secs=0.1) for i in range(12)), window=0.6, settle=8.0), Bounds(0)))
    out.append((Turn(name="many-2", limit=2, workers=3, plan=tuple(A(0.02 * i, f"k{i}", secs=0.2) for i in range(14)), window=0.6, settle=8.0), Bounds(0)))
    # the lease outlived: parked far longer than the redelivery timeout
    out.append((Turn(name="long", redelivery=1.0, settle=12.0, window=4.0, plan=(A(0, "a", secs=5.0), A(0, "b"), A(0.3, "c"))), Bounds(1, m=1, hold=1)))
    # users interfering
    acts = {"cancel-b": (("cancel", "b"),), "replace-b": (("replace", "b"),), "cancel-c": (("cancel", "c"),), "cancel-add-b": (("cancel", "b"), ("add", "b")),
            "cancel-both": (("cancel", "b"), ("cancel", "c")), "replace-a": (("replace", "a"),), "cancel-a": (("cancel", "a"),), "add-d": (("add", "d"),)}
    b = Bounds(1 if not deep else 2, m=2, inject=1, hold=1)
    out.append((Turn(name="users-1", workers=1, plan=three, acts=acts, window=1.6, settle=4.0, keys_extra=("d",)), b))
    out.append((Turn(name="users-2", workers=2, plan=three, acts=acts, window=1.6, settle=4.0, keys_extra=("d",)), b))
    # cancelled (and replaced) for certain, with races
    for op in ("cancel", "replace"):
        out.append((Turn(name=f"{op}-parked", plan=three + ((0.15, op, "b"), (0.2, "add", "d")), window=1.6, settle=4.0), Bounds(2 if deep else 1, m=3, hold=1)))
    # deaths of holders
    die = (A(0, "a", secs=0.8), A(0, "b", secs=0.4), A(0.1, "c"))
    out.append((Turn(name="death", victims=("w1",), settle=14.0, plan=die, redelivery=2.0), Bounds(2, m=1, crash=1, hold=1) if deep else Bounds(1, m=1, crash=1)))
    out.append((Turn(name="death-2", limit=2, victims=("w1",), redelivery=2.0, settle=14.0, plan=die + (A(0.3, "d", secs=1.0),)), Bounds(1, m=1, crash=1)))
    out.append((Turn(name="all-die", workers=2, victims=("w1", "w2"), redelivery=1.5, settle=14.0, window=0.9, plan=die, rescue=True), Bounds(2, m=1, crash=2)))
    return out
