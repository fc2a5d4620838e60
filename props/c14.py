"""C14: a concurrency limit is never exceeded."""
from props.limits import *

RULE = ("races of acquiring, parking, releasing, waking and cancelling on up to three workers with all placements of holds and reversals; deaths before and "
        "after every operation of a worker; runs many times longer than the lease; users cancelling and replacing at every operation")


class Never(Limits):
    def allow_err(self, op, env): return op.proc in ("w1", "w2")

    def check(self, env):
        return self.exceeded(env) + [x for x in self.starved(env) if x[0] == "starved-free" or "'other'" in x[1].split("concurrency key ")[1][:9]]


def work(tier):
    deep = tier == "thorough"
    out = []
    A = lambda at, k, **kw: (at, "add", k, kw.get("fn", "lim"), kw.get("conc", "x"), kw.get("secs", 0.4))
    three = (A(0, "a"), A(0, "b"), A(0.1, "c"))
    other = (A(0, "a", secs=1.0), A(0, "b", secs=0.5), A(0.1, "c", conc="other", secs=0.3), A(0.1, "d", fn="free"))
    b2 = Bounds(2, m=1 if not deep else 4, hold=2)
    for form in ("default", "annotated", "task"):
        out.append((Never(name=f"race-{form}", form=form, plan=three, settle=3.0, window=1.6), Bounds(1, m=3, hold=1) if form != "default" and not deep else b2))
    for form in ("default", "annotated"): out.append((Never(name=f"other-key-{form}", form=form, plan=other), Bounds(1, m=2, hold=1)))
    out.append((Never(name="limit-2", limit=2, plan=(A(0, "a"), A(0, "b", secs=0.6), A(0.1, "c"), A(0.1, "d"))), Bounds(1 if not deep else 2, m=3, hold=2)))
    out.append((Never(name="three-workers", workers=3, plan=three), Bounds(1 if not deep else 2, m=3, hold=2)))
    out.append((Never(name="retries", plan=(A(0, "a", fn="flaky"), A(0, "b", fn="flaky"), A(0.2, "c"))), Bounds(1 if not deep else 2, m=3, hold=2)))
    out.append((Never(name="chain", plan=(A(0, "a", fn="chain", secs=0.5), A(0, "b", secs=0.8), A(0.2, "c"))), Bounds(1, m=3, hold=1)))
    # runs far longer than the lease
    for w in (1, 2, 3):
        out.append((Never(name=f"long-{w}", workers=w, redelivery=1.0, settle=22.0, plan=(A(0, "a", secs=9.0), A(0, "b", secs=6.0), A(0.3, "c"), A(4, "d"))), Bounds(1, m=1, hold=1) if w == 2 else Bounds(0)))
        out.append((Never(name=f"long-2-{w}", workers=w, limit=2, redelivery=1.0, settle=22.0, plan=(A(0, "a", secs=9.0), A(0, "b", secs=6.0), A(0.3, "c"), A(4, "d"))), Bounds(0)))
    # a request of a worker fails
    for w in (1, 2):
        out.append((Never(name=f"error-{w}", workers=w, redelivery=1.0, settle=12.0, window=3.5, plan=(A(0, "a", secs=3.0), A(0.1, "b", secs=0.5), A(0.3, "c"))), Bounds(1, m=0, err=1)))
    # deaths
    die = (A(0, "a", secs=0.8), A(0, "b", secs=0.6), A(0.1, "c"))
    out.append((Never(name="death", victims=("w1",), settle=16.0, plan=die), Bounds(2, m=1, crash=1, hold=1) if deep else Bounds(1, m=1, crash=1)))
    out.append((Never(name="death-2", limit=2, workers=3, victims=("w1",), settle=16.0, plan=die + (A(0.3, "d", secs=1.0),)), Bounds(1, m=1, crash=1)))
    out.append((Never(name="two-deaths", workers=3, victims=("w1", "w2"), redelivery=1.5, settle=12.0, window=2.5 if deep else 1.0, plan=die[:2] + die[2:][:deep]), Bounds(2, m=1, crash=2)))
    out.append((Never(name="death-long", victims=("w1",), redelivery=1.0, settle=16.0, plan=(A(0, "a", secs=4.0), A(0, "b", secs=3.0), A(0.2, "c", secs=3.0)), window=1.5), Bounds(1, m=1, crash=1)))
    # users interfering
    acts = {"cancel-a": (("cancel", "a"),), "replace-a": (("replace", "a"),), "cancel-b": (("cancel", "b"),), "replace-b": (("replace", "b"),),
            "cancel-add-a": (("cancel", "a"), ("add", "a"))}
    two = (A(0, "a", secs=0.6), A(0, "b", secs=0.5), A(0.1, "c"))
    out.append((Never(name="users", plan=two, acts=acts), Bounds(1 if not deep else 2, m=2, inject=1, hold=1)))
    out.append((Never(name="users-cleanup", plan=(A(0, "a", fn="cleanup", secs=0.6),) + two[1:], acts={k: v for k, v in acts.items() if k.endswith("a")}), Bounds(1, inject=1)))
    return out
