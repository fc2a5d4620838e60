"""C08: a strike blocks exactly the matching calls."""
import inspect
import itertools
from docket import Retry, StrikeList
from docket.strikelist import Strike, Restore, Operator
from mc.world import *
from mc.explore import Bounds

RULE = ("all sequences of strike/restore instructions up to a length over two functions, two parameters and several conditions, each prefix judged "
        "against the set of strikes in force; every operator over a grid of strike values and arguments passed in every way; and all short "
        "sequences of instructions and calls through a docket and a worker; and strikes arriving at every operation of a scheduled task's life")

CONDS = [("f", None, "==", None), ("f", "x", "==", 1), ("f", "x", ">", 1), ("f", "y", "==", "a"), (None, "x", "==", 1), (None, "y", "!=", "a"),
         ("g", None, "==", None), ("g", "x", "==", 1)]
CALLS = [("f", 1, "a"), ("f", 2, "a"), ("f", 0, "b"), ("g", 1, "a"), ("g", 2, "a"), ("g", 0, "b")]


def matches(c, call):
    fn, par, op, val = c
    if fn is not None and fn != call[0]: return False
    if par is None: return True
    return holds({"x": call[1], "y": call[2]}[par], op, val)


def holds(a, op, v):
    """The definition of the operators; values that cannot be compared do not match."""
    try:
        if op == "between":
            lo, hi = v
            return lo <= a <= hi
        return {"==": lambda: a == v, "!=": lambda: a != v, ">": lambda: a > v, ">=": lambda: a >= v, "<": lambda: a < v, "<=": lambda: a <= v}[op]()
    except (TypeError, ValueError):
        return False


class Base(World):
    def tasks(self, env):
        async def f(x, y="a", **more): pass
        async def g(x, y="a", **more): pass
        return {"f": f, "g": g}

    async def calls(self, d, calls=CALLS):
        return [(c, await d.add(d.fns[c[0]], key=f"call{i}")(c[1], c[2])) for i, c in enumerate(calls)]

    def check(self, env): return self.bad

    def counts(self, env): return self.n, self.n


class Sequences(Base):
    """Every instruction sequence starting with `first`, on a strike list of its own."""
    length = 3
    first = 0

    async def main(self, env):
        self.bad, self.n = [], 0
        async with self.client(env) as d:
            execs = await self.calls(d)
            ins = [(k, c) for c in CONDS for k in ("strike", "restore")]
            for seq in itertools.product(ins, repeat=self.length - 1):
                seq = (ins[self.first],) + seq
                sl = StrikeList()
                live = set()
                for i, (k, c) in enumerate(seq):
                    fn, par, op, val = c
                    sl.update((Strike if k == "strike" else Restore)(fn, par, Operator(op), val))
                    (live.add if k == "strike" else live.discard)(c)
                if not self.judge(sl, live, execs, seq): break
            # one more: every prefix of one path is judged too (the shorter sequences are those of the scenarios with less length)

    def judge(self, sl, live, execs, seq):
        self.n += 1
        for call, e in execs:
            want = any(matches(c, call) for c in live)
            if sl.is_stricken(e) != want:
                self.bad.append((f"{'not-' if want else ''}blocked", f"after {seq} the call {call} is {'not ' if want else ''}blocked; in force: {sorted(map(str, live))}"))
                return False
        for x, y in ((1, "a"), (2, "b"), (0, "a")):
            want = any(matches(c, (None, x, y)) for c in live if c[0] is None)
            if sl.is_stricken({"x": x, "y": y}) != want:
                self.bad.append((f"dict-{'not-' if want else ''}blocked", f"after {seq} the parameters x={x}, y={y} are {'not ' if want else ''}blocked; in force: {sorted(map(str, live))}"))
                return False
        return True


class Operators(Base):
    """Each operator, strike value and argument, the argument passed in each possible way."""
    async def main(self, env):
        self.bad, self.n = [], 0
        vals = [0, 1, 2, -1, 1.5, True, "a", "b", "", None, (1, 2), (2, 1), ("a", "b"), (1, "b"), (1,)]
        async with self.client(env) as d:
            ways = []
            for i, a in enumerate(vals):
                ways += [(a, "positional", await d.add(d.fns["f"], key=f"p{i}")(a, "q")), (a, "keyword", await d.add(d.fns["f"], key=f"k{i}")(x=a)),
                         (a, "extra", await d.add(d.fns["f"], key=f"e{i}")("x", x2=a))]
            for op in Operator:
                for v in vals:
                    for scope in ("f", None):
                        for par in ("x", "x2"):
                            sl = StrikeList()
                            sl.update(Strike(scope, par, op, v))
                            for a, how, e in ways:
                                self.n += 1
                                arg = (a if how != "extra" else "x") if par == "x" else (a if how == "extra" else Operators)
                                want = arg is not Operators and bool(holds(arg, op.value, v))
                                if sl.is_stricken(e) != want:
                                    self.bad.append((f"operator-{op.value}", f"strike {scope}({par} {op.value} {v!r}) and a {how} argument {arg!r}: blocked={not want}"))
                                    return
            await self.signatures(env, d)
            # the default of an omitted parameter counts as its value
            for v, want in (("a", True), ("b", False)):
                sl = StrikeList()
                sl.update(Strike("f", "y", Operator("=="), v))
                if sl.is_stricken(await d.add(d.fns["f"], key=f"def{v}")(1)) != want: self.bad.append(("default", f"y == {v!r} and an omitted y with default 'a': blocked={not want}"))
                self.n += 1


    async def signatures(self, env, d):
        async def plain(a, b=2, c="u"): pass
        async def starred(a, b=2, *more): pass
        async def named(a, b=2, *, c="u", e=None): pass
        async def extra(a, b=2, **others): pass
        async def both(a, *more, c="u", **others): pass
        async def late(a, b=2, *, retry: Retry = Retry(attempts=2), c="u"): pass
        shapes = {
            plain: [((1,), {}), ((1, 2), {}), ((1, 3, "u"), {}), ((1,), {"b": 3}), ((1,), {"c": "v"}), ((), {"a": 1}), ((), {"c": "u", "a": 2}), ((1, 3), {"c": "v"})],
            starred: [((1,), {}), ((1, 3), {}), ((1, 3, 4, 5), {}), ((), {"a": 1}), ((), {"b": 3, "a": 2})],
            named: [((1,), {}), ((1, 3), {}), ((1,), {"c": "v"}), ((2,), {"e": 1}), ((), {"a": 1, "c": "v", "e": 1}), ((1,), {"b": 3, "e": 2})],
            extra: [((1,), {}), ((1,), {"c": "v"}), ((1, 3), {"c": "u"}), ((), {"a": 1, "c": "v"}), ((2,), {"e": 1, "c": "v"}), ((2,), {"b": 3, "c": "v"})],
            both: [((1,), {}), ((1, 2, 3), {}), ((1, 2), {"c": "v"}), ((1,), {"e": 1}), ((), {"a": 1, "c": "v", "e": 1}), ((2, 2), {"e": 1, "c": "u"})],
            late: [((1,), {}), ((1, 3), {}), ((1,), {"c": "v"}), ((), {"a": 1}), ((), {"a": 2, "c": "v"})],
        }
        for f, ss in shapes.items():
            d.register(f)
            for i, (args, kw) in enumerate(ss):
                e = await d.add(f, key=f"{f.__name__}{i}")(*args, **kw)
                b = inspect.signature(f).bind(*args, **kw)
                b.apply_defaults()
                have = {k: v for k, v in b.arguments.items() if k not in ("more", "others", "retry")} | b.arguments.get("others", {})
                for par in ("a", "b", "c", "e"):
                    for op in ("==", "!=", ">="):
                        for v in (1, 2, 3, "u", "v", None):
                            for scope in (f.__name__, None, "other"):
                                sl = StrikeList()
                                sl.update(Strike(scope, par, Operator(op), v))
                                self.n += 1
                                want = scope != "other" and par in have and bool(holds(have[par], op, v))
                                if sl.is_stricken(e) != want:
                                    self.bad.append(("signature", f"strike {scope}({par} {op} {v!r}) and {f.__name__}{args}{kw}: blocked={not want}"))
                                    return


class Through(Base):
    """Instructions through one docket, calls through it and another one, executed by a worker on the other."""
    first = 0
    length = 2
    poll = 0.05
    conds = CONDS[:5]

    def tasks(self, env):
        async def f(x, y="a"): env.ev("start", "f", x, y)
        async def g(x, y="a"): env.ev("start", "g", x, y)
        return {"f": f, "g": g}

    async def main(self, env):
        self.bad, self.n = [], 0
        ins = [(k, c) for c in self.conds for k in ("strike", "restore")]
        for j, rest in enumerate(itertools.product(ins, repeat=self.length - 1)):
            seq = (ins[self.first],) + rest
            self.docket_name = f"d{j}"
            async with self.client(env) as d, self.client(env) as e:
                # tasks scheduled ahead, due after the instructions
                ahead = [(c, await d.add(d.fns[c[0]], key=f"ahead{i}", when=utc() + S(1))(c[1], c[2])) for i, c in enumerate(CALLS)]
                live = set()
                for k, c in seq:
                    fn, par, op, val = c
                    if k == "strike": await d.strike(d.fns[fn] if fn and self.first % 2 else fn, par, op, val)
                    else: await d.restore(fn, par, op, val)
                    (live.add if k == "strike" else live.discard)(c)
                    for i, call in enumerate(CALLS):
                        x = await d.add(d.fns[call[0]], key=f"probe{i}", when=utc() + S(100))(call[1], call[2])
                        await d.cancel(f"probe{i}")
                        want = any(matches(c, call) for c in live)
                        if (x.disposition.name == "STRUCK") != want: self.bad.append(("add", f"after {seq}: add of {call} reported {x.disposition.name}; in force {live}"))
                        x = await d.replace(d.fns[call[0]], key=f"probe{i}", when=utc() + S(100))(call[1], call[2])
                        await d.cancel(f"probe{i}")
                        if (x.disposition.name == "STRUCK") != want: self.bad.append(("replace", f"after {seq}: replace of {call} reported {x.disposition.name}; in force {live}"))
                await asyncio.sleep(0.5)
                n0 = len(env.events)
                t = env.spawn(f"w{j}", self.run_worker(env, f"w{j}"))
                await asyncio.sleep(1.2)
                ran = sorted(x[3:6] for x in env.events[n0:] if x[2] == "start")
                want = sorted(c for c in CALLS if not any(matches(s, c) for s in live))
                if ran != want: self.bad.append(("executed", f"tasks scheduled before {seq}: ran {ran}, expected {want}"))
                for c, x in ahead:
                    st = env.instant(d.get_execution(x.key))
                    if c not in want and c not in ran and (st is None or st.state.value != "cancelled"): self.bad.append(("record", f"the blocked task {c} is recorded as {st and st.state.value} after {seq}"))
                # once everything is restored, calls go through again, under the same keys too
                for c in set(live): await d.restore(*c)
                await asyncio.sleep(0.5)
                n0 = len(env.events)
                for i, (c, x) in enumerate(ahead):
                    y = await d.add(d.fns[c[0]], key=x.key)(c[1], c[2])
                    if y.disposition.name != "SCHEDULED": self.bad.append(("after-restore", f"after {seq} and restoring all: add of {c} under its old key reported {y.disposition.name}"))
                await asyncio.sleep(0.6)
                ran = sorted(x[3:6] for x in env.events[n0:] if x[2] == "start")
                if ran != sorted(CALLS): self.bad.append(("not-restored", f"after {seq} and restoring all: ran {ran}"))
                t.cancel()
                await asyncio.gather(t, return_exceptions=True)
                self.n += 1
            if self.bad: return


class Midway(World):
    """A strike (and its restoration) issued at every operation of the tasks' way to the worker: a struck task that has not been claimed does not run."""
    poll = 0.25
    hold_limit = 1.0
    sets = ((("f", None, "==", None),), ((None, "x", "==", 1),), (("f", "x", ">", 0), ("f", "x", "==", 1)))

    def tasks(self, env):
        async def f(x, key):
            async with body(env, key, x): await asyncio.sleep(0.3)
        async def g(x, key):
            async with body(env, key, x): await asyncio.sleep(0.3)
        return {"f": f, "g": g}

    def injections(self): return [f"strike{i}" for i in range(len(self.sets))]

    async def inject(self, env, which):
        d = env.data.client
        env.ev("strike", which)
        for c in self.sets[int(which[6:])]: await d.strike(*c)
        env.ev("struck", which, env.t())

    async def main(self, env):
        async with self.client(env) as d:
            env.data.client = d
            self.start_worker(env, "w1")
            await asyncio.sleep(0.5)
            env.explore = True
            for i, (fn, x, delay) in enumerate((("f", 1, 0), ("f", 2, 0.4), ("g", 1, 0.4), ("g", 2, 0), ("f", 1, 1.0))):
                e = await d.add(d.fns[fn], key=f"t{i}", when=utc() + S(delay) if delay else None)(x, f"t{i}")
                env.ev("added", f"t{i}", fn, x, e.disposition.name)
            await asyncio.sleep(1.5)
            env.explore = False
            await asyncio.sleep(3)

    def check(self, env):
        out = []
        st = [e for e in env.events if e[2] == "strike"]
        done = [e for e in env.events if e[2] == "struck"]
        for e in evs(env, "added"):
            key, fn, x, res = e[3:7]
            r = starts(env, key)
            live = [c for s in st for c in self.sets[int(s[3][6:])]]
            hit = any(c[0] in (None, fn) and (c[1] is None or holds(x, c[2], c[3])) for c in live)
            if not hit and (res != "SCHEDULED" or len(r) != 1 or len(finishes(env, key)) != 1):
                out.append(("unaffected", f"the call {fn}({x}) matches no strike, but add reported {res} and it ran {len(r)} times; strikes {st}"))
            if hit and res not in ("SCHEDULED", "STRUCK"): out.append(("odd", f"add of {fn}({x}) reported {res}"))
            if hit and res == "STRUCK" and r: out.append(("rejected-but-ran", f"{fn}({x}) was rejected but ran"))
            if hit and done and r and r[0][0] > done[0][4] + 0.6 + self.hold_limit * env.nheld: out.append(("ran", f"{fn}({x}) started at {r[0][0]}, struck at {done[0][4]}"))
            if len(r) > 1: out.append(("twice", f"{fn}({x}) ran {len(r)} times"))
        return out


class Joining(World):
    """A worker that starts when strikes have been issued long ago: struck tasks waiting for it do not run, others do."""
    poll = 0.25
    strikes = 1             # on other things, before the ones that matter
    auto = False
    conc = 10

    def tasks(self, env):
        async def f(x):
            async with body(env, f"f{x}"): pass
        async def g(x):
            async with body(env, f"g{x}"): pass
        return {"f": f, "g": g}

    async def main(self, env):
        async with self.client(env) as d:
            for x in (1, 2, 3):
                for n in ("f", "g"): await d.add(d.fns[n], key=f"{n}{x}", when=None if x < 3 else utc() + S(0.3))(x)
            for i in range(self.strikes): await d.strike("other", "x", "==", i)
            await d.strike("f", "x", "<", 2)
            await d.strike(None, "x", "==", 3)
            await d.strike("g", "x", "==", 1)
            await d.restore("g", "x", "==", 1)
            await asyncio.sleep(0.5)
            env.explore = True
            self.start_worker(env, "w1", concurrency=self.conc)
            await asyncio.sleep(0.6)
            env.explore = False
            await asyncio.sleep(3.0)
            env.data.end = {k: env.instant(d.get_execution(k)).state.value for k in ("f1", "f3", "g3")}

    def check(self, env):
        out = []
        ran = sorted(e[3] for e in starts(env))
        for k in ("f1", "f3", "g3"):
            if k in ran: out.append(("ran", f"{k} had been struck before the worker started ({self.strikes + 4} instructions), but ran; runs {ran}"))
            elif env.data.end[k] != "cancelled": out.append(("record", f"the blocked task {k} is recorded as {env.data.end[k]}"))
        for k in ("f2", "g1", "g2"):
            if ran.count(k) != 1: out.append(("unaffected", f"{k}, which no strike matches, ran {ran.count(k)} times; runs {ran}"))
        return out


class Remade(World):
    """A struck call's key is given to a call that no strike matches, at every operation of the struck call's end: the new call is unaffected, and stays the only one under its key."""
    poll = 0.25
    delay = 0.6
    how = "replace"

    def tasks(self, env):
        async def f(x):
            async with body(env, "a", x): pass
        return {"f": f}

    def injections(self): return ["remade"]
    inject_after_reads = True

    async def inject(self, env, which):
        d = env.data.client
        if self.how == "replace": e = await d.replace(d.fns["f"], key="a", when=utc() + S(self.delay))(2)
        else:
            await d.cancel("a")
            e = await d.add(d.fns["f"], key="a", when=utc() + S(self.delay))(2)
        env.ev("remade", e.disposition.name)
        e = await d.add(d.fns["f"], key="a")(3)
        env.ev("again", e.disposition.name, env.t())
        await asyncio.sleep(0.3)
        if not [e for e in starts(env) if e[5] == 2]:
            e = await d.add(d.fns["f"], key="a")(4)
            env.ev("again", e.disposition.name, env.t())

    async def main(self, env):
        async with self.client(env) as d:
            env.data.client = d
            await d.add(d.fns["f"], key="a")(1)
            await d.strike("f", "x", "==", 1)
            await asyncio.sleep(0.3)
            env.explore = True
            self.start_worker(env, "w1")
            await asyncio.sleep(0.6)
            env.explore = False
            await asyncio.sleep(3.0)
            env.data.end = env.instant(d.get_execution("a")).state.value

    def check(self, env):
        out = []
        if [e for e in starts(env) if e[5] == 1]: out.append(("ran", "the struck call ran"))
        if evs(env, "remade"):
            ran = [(e[0], e[5]) for e in starts(env)]
            took = [e[3] for e in evs(env, "remade", "again") if e[3] != "ALREADY_SCHEDULED"]
            if len([e for e in ran if e[1] == 2]) != (evs(env, "remade")[0][3] == "SCHEDULED"): out.append(("unaffected", f"the call made of the struck one's key ran {ran}; {[e[2:] for e in evs(env, 'remade', 'again')]}"))
            if len(ran) != len(took): out.append(("twice", f"{len(took)} calls were accepted, the runs are {ran}"))
            if len(took) > 1 and ran and self.delay and [e for e in evs(env, "again") if e[3] == "SCHEDULED" and e[4] < [x for x in ran if x[1] == 2][0][0]]:
                out.append(("second", f"while the call given the key waited, another was accepted under it: {[e[2:] for e in evs(env, 'remade', 'again')]}; runs {ran}"))
        return out


def work(tier):
    deep = tier == "thorough"
    n = 2 * len(CONDS)
    out = []
    for length in (1, 2, 3, 4) if not deep else (1, 2, 3, 4, 5):
        out += [(Sequences(name=f"sequences-{length}-{i}", length=length, first=i), Bounds(depth=0)) for i in range(n)]
    out.append((Operators(name="operators"), Bounds(depth=0)))
    m = 10
    out += [(Through(name=f"docket-{l}-{i}", first=i, length=l, max_ops=10 ** 6, max_time=1e6), Bounds(depth=0)) for l in ((1, 2) if not deep else (1, 2, 3)) for i in range(m)]
    for n in (0, 96, 97, 250):
        for auto in (False, True):
            out.append((Joining(name=f"joining-{n}-{auto}", strikes=n, auto=auto), Bounds(1 if not deep else 2, m=2, hold=1, stall=1, stalls=(0.4,))))
    for how in ("replace", "readd"):
        for delay in (0, 0.6): out.append((Remade(name=f"remade-{how}-{delay}", how=how, delay=delay), Bounds(1 if not deep else 2, m=1, hold=1, inject=1)))
    out.append((Midway(name="midway"), Bounds(1 if not deep else 2, m=3, hold=1, inject=1)))
    return out
