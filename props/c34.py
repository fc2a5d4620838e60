"""C34: a misbehaving task harms only itself."""
import itertools, threading, warnings
from typing import Annotated
from contextlib import asynccontextmanager, contextmanager
from docket import Depends, Retry, Perpetual, Timeout, ConcurrencyLimit, Progress, Logged
from mc.world import *
from mc.explore import Bounds

warnings.simplefilter("ignore", RuntimeWarning)
RULE = ("every kind of misbehaviour (exceptions that cannot be pickled, unpickled or printed, CancelledError; results that cannot be stored or loaded; "
        "arguments that do not fit or cannot be loaded; unknown functions) at every place (call, dependency set-up, body, clean-up, result), with every feature (retry, perpetual, timeout, concurrency limit), beside ordinary tasks on one or two workers")


class NoPickle(Exception):
    def __init__(self): super().__init__("x"); self.lock = threading.Lock()


class NoUnpickle(Exception):
    def __init__(self, a, b): super().__init__("one argument")


class NoStr(Exception):
    def __str__(self): raise RuntimeError("no str")


class NoRepr(Exception):
    def __repr__(self): raise RuntimeError("no repr")
    __str__ = __repr__


class NoPrint:
    def __repr__(self): raise RuntimeError("repr")


def bad_load(): raise RuntimeError("cannot be loaded")


class NoLoad:
    def __reduce__(self): return (bad_load, ())


class Weird:
    """Neither comparable nor printable nor true or false."""
    def __eq__(self, o): raise RuntimeError("eq")
    __hash__ = None
    def __repr__(self): raise RuntimeError("repr")
    def __bool__(self): raise RuntimeError("bool")


class Odd:
    """Compares to something that is neither true nor false."""
    def __eq__(self, o): return Weird()
    __hash__ = None


EXC = {
    "value": lambda: ValueError("x"), "nopickle": NoPickle, "nounpickle": lambda: NoUnpickle(1, 2), "nostr": NoStr, "norepr": NoRepr,
    "group": lambda: ExceptionGroup("g", [ValueError("x"), KeyError("y")]), "groupnopickle": lambda: ExceptionGroup("g", [NoPickle()]), "stopiter": StopIteration, "stopaiter": StopAsyncIteration, "recursion": RecursionError,
    "timeout": TimeoutError, "conn": lambda: ConnectionError("x"), "redisconn": lambda: __import__("redis").exceptions.ConnectionError("x"), "response": lambda: __import__("redis").exceptions.ResponseError("NOGROUP x"),
    "cancelled": lambda: asyncio.CancelledError("own"), "memory": MemoryError, "assertion": AssertionError,
}
RES = {"lock": lambda: threading.Lock(), "lambda": lambda: (lambda x: x), "noload": NoLoad, "gen": lambda: (i for i in ()), "weird": Weird, "exc": lambda: ValueError("as a result"), "big": lambda: "x" * 300000, "coro": None}
FEATURES = ("plain", "retry", "perp", "timeout", "limit", "progress", "retryperp")


class Misbehave(World):
    poll = 0.3
    redelivery = 2.0
    heartbeat = 0.5
    workers = 1
    concurrency = 3
    cases = ()              # (place, what, feature)
    max_ops = 200000
    hold_limit = 0.5
    execs = {}

    def tasks(self, env):
        out = {}

        async def good(i: int):
            async with body(env, f"good{i}"): await asyncio.sleep(0.1)
            return i

        async def fits(a: int): pass
        async def logged(a: Annotated[object, Logged()], b: Annotated[object, Logged(length_only=True)] = ()): pass
        out["good"], out["fits"], out["logged"] = good, fits, logged
        for n, (place, what, feature) in enumerate(self.cases): out[f"f{n}"] = self.build(env, n, place, what, feature)
        return out

    def build(self, env, n, place, what, feature):
        def boom(here):
            if place != here: return
            e = EXC[what]()
            raise e

        @asynccontextmanager
        async def adep():
            await asyncio.sleep(0)
            boom("enter")
            try: yield 1
            except Exception:
                if place != "swallow": raise
            finally:
                await asyncio.sleep(0)
                e = self.execs.get(n)
                if e is not None:
                    env.instant(e.sync())
                    env.ev("cleanup", n, e.state.value)
                boom("exit")

        @contextmanager
        def sdep():
            boom("senter")
            try: yield 1
            finally: boom("sexit")

        async def run():
            async with body(env, f"bad{n}"):
                await asyncio.sleep(0.02)
                boom("body")
                boom("swallow")
                if place == "result":
                    if what == "coro": return asyncio.sleep(0)
                    return RES[what]()
        if feature == "retry":
            async def f(a=Depends(adep), b=Depends(sdep), x: Retry = Retry(attempts=2, delay=S(0.1))): return await run()
        elif feature == "perp":
            async def f(a=Depends(adep), b=Depends(sdep), x: Perpetual = Perpetual(every=S(0.7))): return await run()
        elif feature == "timeout":
            async def f(a=Depends(adep), b=Depends(sdep), x: Timeout = Timeout(S(1))): return await run()
        elif feature == "limit":
            async def f(a=Depends(adep), b=Depends(sdep), x: ConcurrencyLimit = ConcurrencyLimit(1, scope=f"s{n}")): return await run()
        elif feature == "progress":
            async def f(a=Depends(adep), b=Depends(sdep), x: Progress = Progress()): return await run()
        elif feature == "retryperp":
            async def f(a=Depends(adep), b=Depends(sdep), x: Retry = Retry(attempts=2, delay=S(0.1)), y: Perpetual = Perpetual(every=S(0.7))): return await run()
        else:
            async def f(a=Depends(adep), b=Depends(sdep)): return await run()
        f.__name__ = f.__qualname__ = f"f{n}"
        return f

    async def main(self, env):
        self.res, self.execs = {}, {}
        execs = self.execs
        async with self.client(env) as d:
            for w in range(self.workers): self.start_worker(env, f"w{w + 1}")
            await asyncio.sleep(0.4)
            env.explore = True
            g = itertools.count()
            await d.add(d.fns["good"], key="g0")(next(g))
            for n, (place, what, feature) in enumerate(self.cases):
                if place == "call":
                    if what == "unknown":
                        async def ghost(): pass
                        d.register(ghost)
                        e = await d.add(ghost, key=f"k{n}")()
                    elif what == "noload": e = await d.add(d.fns["fits"], key=f"k{n}")(NoLoad())
                    elif what == "many": e = await d.add(d.fns["fits"], key=f"k{n}")(1, 2, 3)
                    elif what == "none": e = await d.add(d.fns["fits"], key=f"k{n}")()
                    elif what == "kw": e = await d.add(d.fns["fits"], key=f"k{n}")(1, b=2)
                    elif what == "twice": e = await d.add(d.fns["fits"], key=f"k{n}")(1, a=2)
                    elif what in ("weird", "weirdstruck", "oddstruck"):
                        if what != "weird": await d.strike("fits", "a", "==", 99)
                        e = await d.add(d.fns["fits"], key=f"k{n}")((Odd if what[0] == "o" else Weird)())
                    elif what == "weirdlogged": e = await d.add(d.fns["logged"], key=f"k{n}")(Weird(), Weird())
                else: e = await d.add(d.fns[f"f{n}"], key=f"k{n}")()
                execs[n] = e
                i = next(g)
                await d.add(d.fns["good"], key=f"g{i}")(i)
            await asyncio.sleep(1.5)
            i = next(g)
            await d.add(d.fns["good"], key=f"g{i}")(i)
            self.ngood = i + 1
            await asyncio.sleep(0.5)
            self.workers_up = {w.name for w in await d.workers()}
            await asyncio.sleep(8)
            for n in range(len(self.cases)):
                env.instant(execs[n].sync())
                self.res[n] = execs[n].state.value
            self.wait = {}
            for n in range(len(self.cases)):
                if self.res[n] in ("completed", "failed", "cancelled"):
                    e = execs[n]
                    t = env.t()
                    try: r = ("ok", await asyncio.wait_for(e.get_result(timeout=S(1)), 3))
                    except Exception as x: r = ("raised", type(x))
                    self.wait[n] = (r, env.t() - t)
            return True

    def check(self, env):
        out = []
        for c, n in [(c, n) for n, c in enumerate(self.cases)]:
            place, what, feature = c
            say = lambda key, text: out.append((f"{key}", f"{what} at {place} of a {feature} task, {self.workers} workers, {self.concurrency} slots: {text}; {[(e[0], e[1], e[2], *e[3:6]) for e in env.events if e[2] != 'x'][:30]}"))
            runs = [e for e in starts(env, f"bad{n}")]
            if evs(env, "worker-died", "worker-exit"): say("worker-died", f"{evs(env, 'worker-died', 'worker-exit')}")
            if len(self.workers_up) != self.workers: say("worker-gone", f"listed workers {self.workers_up}")
            for i in range(self.ngood):
                s = starts(env, f"good{i}")
                if len(s) != 1: say("others-suffer", f"ordinary task {i} ran {len(s)} times")
                elif i in (self.ngood - 1,) and s[0][0] > 1.9 + 0.02 + 3 * self.poll + 2 * self.hold_limit * env.nheld: say("others-delayed", f"ordinary task {i} started only at {s[0][0]}")
            for e in evs(env, "cleanup"):
                if e[3] == n and e[4] in ("completed", "failed"): say(f"{e[4]}-before-cleanup", f"recorded as {e[4]} while its dependencies were being cleaned up")
            never = place in ("call", "enter", "senter")
            again = "retry" in feature and (place == "body" or place in ("exit", "sexit")) and what not in ("cancelled",)
            perp = "perp" in feature
            if place == "call" and what == "unknown": ok = {"failed", "completed", "cancelled"}
            elif perp: ok = None
            elif place == "result": ok = {"completed", "failed"}
            elif what == "cancelled": ok = {"cancelled", "failed", "completed"}
            elif place == "swallow": ok = {"completed", "failed"}
            else: ok = {"failed"} if not (place == "call" and what in ("weird", "weirdstruck", "oddstruck", "weirdlogged")) else {"completed"}
            if ok is not None and self.res[n] not in ok: say(f"ends-{self.res[n]}", f"it ends as {self.res[n]}")
            if never and runs: say("started", f"its body ran {len(runs)} times")
            if not never and not perp and place == "body" and what == "cancelled": want = (1, 2)
            elif not never and not perp and place in ("swallow", "result"): want = (1, 2)
            elif not never and not perp: want = (2,) if again else (1,)
            else: want = None
            if want and len(runs) not in want: say("runs", f"its body ran {len(runs)} times, expected {want}")
            if perp and place not in ("call",) and what != "cancelled" and self.res[n] not in ("scheduled", "queued", "running"): say(f"perpetual-ends-{self.res[n]}", f"the perpetual task ends as {self.res[n]}")
            if n in self.wait:
                r, t = self.wait[n]
                if t > 0.9 + 2 * self.hold_limit * env.nheld: say("result-hangs", f"waiting for its result took {t} s: {r}")
        return out

    def covered(self, env): return {f"{w} at {p}: {self.res.get(n)}" for n, (p, w, f) in enumerate(self.cases)}


class BadStrike(Misbehave):
    """A strike nobody can load, among good ones."""
    heartbeat = 20.0
    before = False
    bads = ()

    async def main(self, env):
        async with self.client(env) as d:
            env.explore = True
            if self.before: await self.strikes(env, d)
            for w in range(self.workers): self.start_worker(env, f"w{w + 1}")
            await asyncio.sleep(0.4)
            for i in range(2): await d.add(d.fns["good"], when=utc() + S(2 + i), key=f"g{i}")(i)
            if not self.before: await self.strikes(env, d)
            await asyncio.sleep(1)
            env.spawn("late", self.late(env))
            await asyncio.sleep(9)
            return True

    async def late(self, env):
        async with self.client(env) as d:
            try: await asyncio.wait_for(d.wait_for_strikes_loaded(), 3)
            except TimeoutError: env.ev("never-loaded")
            e = await d.add(d.fns["good"], key="g2")(2)
            env.ev("late", e.state.value)
            await asyncio.sleep(6)

    async def strikes(self, env, d):
        async with self.docket(env) as s:
            for bad in self.bads:
                x = {"noload": NoLoad, "weird": NoPrint}[bad]()
                try:
                    await s.strike("fits", "a", "==", x)
                except Exception as e: env.ev("strike-raised", repr(type(e)))
                await s.strike("good", "i", "==", 1)
                await s.strike("good", "i", "==", 2)

    def check(self, env):
        out = []
        if evs(env, "worker-died", "worker-exit"): out.append(("worker-died", f"{evs(env, 'worker-died', 'worker-exit')}"))
        if evs(env, "never-loaded"): out.append(("strikes-never-loaded", "the list of strikes is never loaded"))
        want = {0: 1, 1: 0, 2: 0}
        for i, n in want.items():
            if len(starts(env, f"good{i}")) != n: out.append((f"strike-lost-{i}", f"after strikes {self.bads} (before the workers: {self.before}) task {i} ran {len(starts(env, f'good{i}'))} times instead of {n}"))
        return out

    def covered(self, env): return {"bad strike"}


def work(tier):
    deep = tier == "thorough"
    cases = []
    for place in ("body", "enter", "senter", "exit", "sexit"):
        for what in EXC:
            for f in FEATURES: cases.append((place, what, f))
    for f in FEATURES: cases.append(("swallow", "value", f))
    for what in RES:
        for f in FEATURES: cases.append(("result", what, f))
    for what in ("unknown", "noload", "many", "none", "kw", "twice", "weird", "weirdstruck", "oddstruck", "weirdlogged"): cases.append(("call", what, "plain"))
    out = []
    for place, what, f in cases:
        for w, conc in ((1, 1), (1, 3), (2, 1)):
            if not deep and (w, conc) != (1, 1) and f != "plain": continue
            if not deep and f in ("progress", "retryperp") and place != "body": continue
            out.append((Misbehave(name=f"{place}-{what}-{f}-{w}-{conc}", cases=((place, what, f),), workers=w, concurrency=conc), Bounds(0)))
    some = [("body", "nopickle", "plain"), ("body", "nostr", "retry"), ("enter", "cancelled", "plain"), ("exit", "value", "limit"), ("sexit", "groupnopickle", "perp"), ("body", "conn", "timeout"),
            ("result", "lock", "plain"), ("result", "noload", "retry"), ("call", "noload", "plain"), ("call", "oddstruck", "plain"), ("call", "unknown", "plain"), ("senter", "timeout", "retryperp")]
    for a in some:
        for b in some:
            for w, conc in ((1, 2), (2, 1)) if deep else ((1, 2),):
                out.append((Misbehave(name=f"{'-'.join(a)}+{'-'.join(b)}-{w}-{conc}", cases=(a, b), workers=w, concurrency=conc), Bounds(0)))
    for b in (False, True):
        for c in (("noload",), ("weird",)): out.append((BadStrike(name=f"strike-{c[0]}-{b}", bads=c, before=b), Bounds(1, hold=1) if deep else Bounds(0)))
    if deep:
        for a in some: out.append((Misbehave(name=f"{'-'.join(a)}-moves", cases=(a,), workers=2, concurrency=1, redelivery=4.0), Bounds(1, hold=1)))
    return out
