"""C09: all connected dockets converge to the same strikes."""
from mc.world import *
from mc.explore import Bounds
from props.c08 import CALLS, matches

RULE = ("two clients issuing strikes and restores at the same time, with up to m-fold reversals of the operations of clients and monitors, a client "
        "joining after every operation, connection errors at every operation of a monitor, and more instructions than one batch")
F, FX, X, G = ("f", None, "==", None), ("f", "x", "==", 1), (None, "x", "==", 1), ("g", None, "==", None)


class Converge(World):
    hold_limit = 2.0
    poll = 0.5
    plans = {}
    preload = 0
    joins = False
    errs = False
    gap = 0.0
    explore_from = 0.5

    def tasks(self, env):
        async def f(x, y="a"): env.ev("start", "f", x)
        async def g(x, y="a"): env.ev("start", "g", x)
        return {"f": f, "g": g}

    def allow_err(self, op, env): return self.errs and op.proc in self.plans
    def injections(self): return ["join"] if self.joins else []
    inject_after_reads = True

    def view(self, d, execs): return tuple(bool(d.strike_list.is_stricken(e)) for e in execs)

    async def execs(self, d, who):
        return [await d.add(d.fns[c[0]], key=f"{who}-{i}", when=utc() + S(10 ** 6))(c[1], c[2]) for i, c in enumerate(CALLS)]

    async def issuer(self, env, who, plan):
        async with self.client(env) as d:
            ex = await self.execs(d, who)
            env.data.dockets[who] = (d, ex)
            await asyncio.sleep(self.explore_from - env.t())
            for i, (at, what, c) in enumerate(plan):
                if self.explore_from + at > env.t(): await asyncio.sleep(self.explore_from + at - env.t())
                rec = [what, c, env.t(), None, len(env.ops), None]
                env.data.calls.append(rec)
                for _ in range(4):
                    try:
                        await (d.strike if what == "S" else d.restore)(*c)
                        break
                    except Exception as e:
                        if "onnection" not in type(e).__name__: raise
                        rec[0] = "?" + what
                rec[3], rec[5] = env.t(), len(env.ops)
                env.data.own.append((who, what, c, matches_view(d, ex, c)))
            await asyncio.sleep(1000)

    async def join(self, env, who):
        began = len(env.ops)
        async with self.client(env) as d:
            await d.wait_for_strikes_loaded()
            ex = await self.execs(d, who)
            v = self.view(d, ex)
            env.data.dockets[who] = (d, ex)
            env.data.joined.append((who, began, len(env.ops), v))
            await asyncio.sleep(1000)

    async def inject(self, env, which): env.spawn("j", self.join(env, "j"))

    async def main(self, env):
        env.data.dockets, env.data.calls, env.data.joined, env.data.own = {}, [], [], []
        async with self.client(env) as d:
            ex = await self.execs(d, "m")
            env.data.dockets["m"] = (d, ex)
            if self.preload:
                for i in range(self.preload):
                    await d.strike("f", "x", "==", 1000 + i)
                await d.strike(*G)
                await d.strike(*X)
                for c in (G, X): env.data.calls.append(["S", c, 0, 0, 0, 0])
                self.start = env.t()
            for who, plan in self.plans.items(): env.spawn(who, self.issuer(env, who, plan))
            await asyncio.sleep(max(0, self.explore_from - 0.01 - env.t()))
            env.explore = True
            await asyncio.sleep(2)
            env.explore = False
            await asyncio.sleep(6)
            env.spawn("z", self.join(env, "z"))
            await asyncio.sleep(2)
            out = {who: self.view(x, e) for who, (x, e) in env.data.dockets.items()}
            # a task of each function through a worker of its own
            return out

    def expected(self, env, upto=None):
        """What is blocked after the calls that returned before operation `upto`, where their order settles it (None: undecided)."""
        calls = env.data.calls
        out = {}
        for c in {r[1] for r in calls}:
            mine = [r for r in calls if r[1] == c]
            if any(r[0][0] == "?" or r[5] is None for r in mine): return None
            if upto is not None:
                if any(r[5] >= upto for r in mine): return None
            if not mine: continue
            last = max(mine, key=lambda r: r[5])
            if any(r is not last and r[5] > last[4] and r[0] != last[0] for r in mine): return None
            out[c] = last[0] == "S"
        return tuple(any(v and matches(c, call) for c, v in out.items()) for call in CALLS)

    def check(self, env):
        out = []
        v = env.value
        ref = v.pop("z", None)
        if ref is None: return [("join-stuck", "a client that joins in the end never finishes loading the strikes")]
        if "j" not in v and any(e[2] == "inject" for e in env.events): out.append(("join-stuck", "a client that joined never finished loading the strikes"))
        for who, x in v.items():
            if x != ref: out.append((f"diverged-{'joiner' if who == 'j' else 'bystander' if who == 'm' else 'issuer'}", f"{who} sees {dict(zip(CALLS, x))}, a client joining later {dict(zip(CALLS, ref))}; calls {env.data.calls}"))
        want = self.expected(env)
        if want is not None and want != ref: out.append(("wrong", f"a late joiner sees {dict(zip(CALLS, ref))}, expected {dict(zip(CALLS, want))}; calls {env.data.calls}"))
        for who, began, _, x in env.data.joined:
            w = self.expected(env, began)
            if w is not None and w != x: out.append(("loaded-early", f"{who} had finished loading and saw {dict(zip(CALLS, x))}, but the calls before it joined amount to {dict(zip(CALLS, w))}"))
        n = sum(len(p) for p in self.plans.values())
        if len([r for r in env.data.calls if r[5] is None]): out.append(("call-stuck", f"a strike or restore never returned: {env.data.calls}"))
        # with a single issuer, an instruction is in force for its issuer as soon as the call has returned
        if len(self.plans) == 1:
            for who, what, c, seen in env.data.own:
                if seen is not None and seen != (what == "S"): out.append(("not-at-once", f"after {what}{c} returned its issuer still sees the old state"))
        return out

    def covered(self, env): return {"undecided-order" if self.expected(env) is None else "decided-order"}


def matches_view(d, ex, c):
    """Whether the issuer sees a call blocked that only c concerns (None: cannot tell)."""
    if c == G: return bool(d.strike_list.is_stricken(ex[5]))
    if c == F: return bool(d.strike_list.is_stricken(ex[2]))
    return None


def work(tier):
    deep = tier == "thorough"
    b = Bounds(2 if not deep else 3, m=2 if not deep else 4, hold=1 if not deep else 2, late=1, lm=6)
    bj = Bounds(1 if not deep else 2, m=2, inject=1, hold=1)
    be = Bounds(1 if not deep else 2, m=2, err=1, hold=1)
    AB = lambda a, b: {"a": a, "b": b}
    return [
        (Converge(name="strike-restore", plans=AB([(0, "S", F)], [(0, "R", F)])), b),
        (Converge(name="two-each", plans=AB([(0, "S", F), (0, "R", F)], [(0, "S", F), (0, "S", G)])), b),
        (Converge(name="restore-again", plans=AB([(0, "S", F), (0, "R", F), (0, "S", F)], [(0, "R", F)])), b),
        (Converge(name="mixed", plans=AB([(0, "S", FX), (0, "S", F), (0, "R", FX)], [(0, "S", X), (0, "R", X), (0.01, "R", F)])), b),
        (Converge(name="mixed-2", plans=AB([(0, "S", F), (0, "S", FX), (0, "R", F)], [(0, "S", G), (0, "R", FX)])), b),
        (Converge(name="one", plans={"a": [(0, "S", G), (0, "R", G), (0, "S", F), (0, "S", G), (0, "R", F)]}), b),
        (Converge(name="join", plans=AB([(0, "S", FX), (0.1, "S", F), (0.2, "R", FX)], [(0, "S", X), (0.3, "R", F)]), joins=True), bj),
        (Converge(name="join-batches", preload=250, explore_from=3.0, plans={"a": [(0, "R", G), (0.1, "S", F)]}, joins=True), bj),
        (Converge(name="errors", plans=AB([(0, "S", F), (0.1, "R", F)], [(0, "S", G), (0.3, "R", G)]), errs=True, joins=True), be),
        (Converge(name="errors-batches", preload=120, explore_from=3.0, plans={"a": [(0, "R", G), (0.1, "S", F)], "b": []}, errs=True), be),
    ]
