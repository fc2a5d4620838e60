"""C04: add() deduplicates by key."""
from props.keyed import *
from mc.explore import Bounds
from props import keyseq

RULE = ("a duplicate add() placed after every state-changing Redis operation of the key's life (in every phase: future, ready, running, "
        "retrying, parked, rate limited, finished, cancelled), combined with reversals of racing operations; and concurrent add() calls "
        "for a free key under every reversal in bounds")


class Dedup(Keyed):
    def check(self, env):
        out = []
        calls = self.calls(env)
        for key in self.keys:
            cs = [c for c in calls if c["key"] == key]
            adds = [c for c in cs if c["op"] == "add"]
            for c in adds:
                if c["res"] is None:
                    out.append(("add-stuck", f"add({key}, {c['tag']}) never returned"))
                    continue
                others = [o for o in cs if o is not c and o["t1"] is not None and not (o["t1"] < c["t0"] or o["t0"] > c["t1"])]
                muddled = [o for o in others if o["op"] != "add" or o["res"] == "SCHEDULED"]
                live = not set(self.during(env, c)) & set(FINAL + (None,)) and not muddled
                free = c["before"] in FINAL + (None,) and not muddled
                if live and c["res"] == "SCHEDULED":
                    out.append((f"accepted-while-{c['before']}", f"add({key}, {c['tag']}) at {c['t0']} was accepted while the key was {c['before']}"))
                if free and c["res"] != "SCHEDULED":
                    out.append((f"refused-while-{c['before']}", f"add({key}, {c['tag']}) at {c['t0']} reported {c['res']} although the key's "
                                f"record read {c['before']}"))
            cancels = [c for c in cs if c["op"] == "cancel"]
            for c in adds:
                rs = self.runs(env, key, c["tag"])
                good = [r for r in rs if r["exc"] is None and r["end"] is not None]
                if c["res"] == "ALREADY_SCHEDULED" and rs:
                    out.append(("refused-but-ran", f"add({key}, {c['tag']}) reported ALREADY_SCHEDULED but ran"))
                if c["res"] == "SCHEDULED":
                    if len(good) > 1: out.append(("ran-twice", f"add({key}, {c['tag']}) ran to completion {len(good)} times"))
                    if not good and not [x for x in cancels if x["t1"] >= c["t0"]]:
                        out.append(("never-ran", f"add({key}, {c['tag']}) was accepted but never ran to completion"))
            rs = sorted(self.runs(env, key), key=lambda r: r["start"])
            for a, b in zip(rs, rs[1:]):
                if a["end"] is None or b["start"] < a["end"]:
                    out.append(("overlap", f"two runs of {key} overlap: {a} {b}"))
            n = len([c for c in adds if c["res"] == "SCHEDULED"])
            if self.contended and n != 1: out.append((f"accepted-{n}", f"{n} of {len(adds)} concurrent add() calls for one free key were accepted"))
            if env.value.get(key) not in FINAL: out.append((f"end-{env.value.get(key)}", f"{key} ends as {env.value.get(key)}"))
            if env.value.get("probe-" + key) not in (None, "SCHEDULED"):
                out.append(("stuck-key", f"after everything finished add({key}) reports {env.value['probe-' + key]}"))
        return out

    contended = False

    async def probe(self, env, d, out):
        if not self.contended:
            for k in self.keys:
                if out[k] in FINAL:
                    await self.do(env, d, "add", k, "job", "probe", 0, 0.1)
                    out["probe-" + k] = self.calls(env)[-1]["res"]
            await asyncio.sleep(3)

    def covered(self, env): return {f"add-while-{c['before']}" for c in self.calls(env) if c["op"] == "add"}


def work(tier):
    deep = tier == "thorough"
    dup = {"now": [("add", "k", "job", "x", 0)], "later": [("add", "k", "job", "y", 1.0)]}
    b = Bounds(2, m=2 if not deep else 5, inject=1, hold=1)
    b1 = Bounds(1 if not deep else 2, m=3, inject=1, hold=1)
    F = ("job", "flaky", "fails", "limited", "rated")
    w = [
        (Dedup(name="future", functions=("job",), acts=dup, plan=[(0, "add", "k", "job", "a", 1.0, 0.7)], window=3.5), b),
        (Dedup(name="immediate", functions=("job",), acts=dup, plan=[(0, "add", "k", "job", "a", 0, 0.7)], window=2.5, workers=2), b),
        (Dedup(name="ready-behind-busy", functions=("job",), acts=dup, concurrency=1, keys=("k", "o"),
               plan=[(0, "add", "o", "job", "o", 0, 1.5), (0.1, "add", "k", "job", "a", 0, 0.3)]), b1),
        (Dedup(name="retrying", functions=("flaky", "job"), acts=dup, plan=[(0, "add", "k", "flaky", "a", 0, 0.3)]), b1),
        (Dedup(name="retrying-at-once", functions=("flaky", "job"), acts=dup, retry_delay=0, plan=[(0, "add", "k", "flaky", "a", 0, 0.3)]), b1),
        (Dedup(name="failing", functions=("fails", "job"), acts=dup, plan=[(0, "add", "k", "job", "a", 0.8, 0.3)], window=3), b1),
        (Dedup(name="parked", functions=("limited", "job"), acts=dup, keys=("k", "o"),
               plan=[(0, "add", "o", "limited", "o", 0, 1.6), (0.2, "add", "k", "limited", "a", 0, 0.3)]), b1),
        (Dedup(name="rate-limited", functions=("rated", "job"), acts=dup, keys=("k", "o"), settle=10.0,
               plan=[(0, "add", "o", "rated", "o", 0, 0.2), (0.2, "add", "k", "rated", "a", 0, 0.3)]), b1),
        (Dedup(name="cancelled", functions=("job",), acts=dup,
               plan=[(0, "add", "k", "job", "a", 2.0, 0.3), (0.5, "cancel", "k")], window=2), b1),
        (Dedup(name="two-adders", functions=("job",), contended=True, workers=1, window=3, hold_limit=0.6,
               users=[(0.1, [("add", "k", "job", "a", 0, 1.5)]), (0.1, [("add", "k", "job", "b", 0, 1.5)])]), Bounds(2, m=4, hold=2)),
        (Dedup(name="three-adders", functions=("job",), contended=True, workers=1, window=3, hold_limit=0.6,
               users=[(0.1, [("add", "k", "job", t, dl, 1.5)]) for t, dl in (("a", 0), ("b", 0.9), ("c", 0))]), Bounds(2, m=3, hold=2)),
    ]
    return w + keyseq.family(("C04",), tier)
