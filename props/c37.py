"""C37: what the logs show of a task's arguments."""
import functools, itertools, logging, traceback
from typing import Annotated
from docket import Logged, CurrentExecution, Retry, Perpetual, Timeout, ConcurrencyLimit, RateLimit, Cooldown, Debounce, Depends
from mc.world import *
from mc.explore import Bounds

RULE = ("every signature of up to three parameters of every kind, each plain, Logged or logged by its length only, in every way of passing its arguments; and every way for a call to go "
        "(running, retried, timed out, perpetual, limited, struck, replaced, cancelled, unknown, unreadable, not storable, redelivered) with a user, errors and deaths at every operation")
SECRET, SHOWN = "s3" + "cr3t", "sh" + "0wn"
RECORDS = []
STANDARD = set(logging.makeLogRecord({}).__dict__)


def told(e):
    """What a traceback says besides places in the code."""
    out = []
    while e is not None and len(out) < 9:
        out += traceback.format_exception_only(type(e), e)
        e = e.__cause__ or e.__context__
    return "".join(out)


class Capture(logging.Handler):
    def emit(self, r):
        try: text = r.getMessage()
        except Exception: text = str(r.msg)
        if r.exc_info and r.exc_info[0]: text += "\n" + told(r.exc_info[1])
        extra = {k: v for k, v in r.__dict__.items() if k not in STANDARD}
        RECORDS.append((r.name, text, repr(extra)))


def listen():
    logging.disable(logging.NOTSET)
    root = logging.getLogger()
    root.handlers[:] = [Capture()]
    root.setLevel(logging.DEBUG)
    logging._srcfile = None             # (not to walk the stack for every record)
    logging.logThreads = logging.logProcesses = logging.logMultiprocessing = False
    RECORDS.clear()


def deaf():
    logging.disable(logging.CRITICAL)
    logging.getLogger().handlers[:] = []


class Broken:
    def __repr__(self): raise RuntimeError("can't")


class Note: pass
class Own(Logged): pass


MARKS = {"plain": lambda t: t, "type": lambda t: Annotated[t, Logged], "instance": lambda t: Annotated[t, Logged()], "length": lambda t: Annotated[t, Logged(length_only=True)],
         "other": lambda t: Annotated[t, "a note"], "among": lambda t: Annotated[t, "a note", Logged], "noted": lambda t: Annotated[t, Note],
         "own": lambda t: Annotated[t, Own]}
LOGGED = ("type", "instance", "among", "own")


def value(mark, n, form):
    word = f"{SHOWN if mark in LOGGED else SECRET}{n}"
    k = 11 + n
    many = [f"{word}-{i}" for i in range(k)]
    return {"str": word, "list": many, "dict": dict.fromkeys(many, word), "set": set(many), "tuple": tuple(many), "bytes": "".join(many).encode()[:k], "frozenset": frozenset(many), "broken": [word, Broken()]}[form]


FORMS = ("str", "list", "dict", "set", "tuple", "bytes", "frozenset", "broken")


def signatures(n):
    """Valid sequences of n parameter kinds."""
    for ks in itertools.product(("po", "pk", "va", "ko", "vk"), repeat=n):
        o = [("po", "pk", "va", "ko", "vk").index(k) for k in ks]
        if o == sorted(o) and ks.count("va") <= 1 and ks.count("vk") <= 1: yield ks


def build(kinds, marks):
    parts, g = [], {}
    for i, (k, m) in enumerate(zip(kinds, marks)):
        g[f"T{i}"] = MARKS[m](object)
        if k == "ko" and "va" not in kinds and (i == 0 or kinds[i - 1] != "ko"): parts.append("*")
        parts.append({"va": "*", "vk": "**"}.get(k, "") + f"p{i}: T{i}")
        if k == "po" and (i + 1 == len(kinds) or kinds[i + 1] != "po"): parts.append("/")
    exec(f"async def job({', '.join(parts)}): pass", g)
    return g["job"]


def calls(kinds, marks, forms):
    """Every way to pass arguments: (args, kwargs, [(value, mark) that are arguments of a named parameter])."""
    pk = [i for i, k in enumerate(kinds) if k == "pk"]
    for split in range(len(pk) + 1):                    # from which on they're passed by keyword
        for extra in ((0, 1, 2) if "va" in kinds and split == len(pk) else (0,)):
            for more in ((0, 1) if "vk" in kinds else (0,)):
                for backwards in ((0, 1) if len(pk) - split + kinds.count("ko") > 1 else (0,)):
                    args, kw, named = [], {}, []
                    for i, (k, m) in enumerate(zip(kinds, marks)):
                        v = value(m, i, forms[i])
                        if k in ("po", "pk", "ko"): named.append((v, m))
                        if k == "po" or k == "pk" and i in pk[:split]: args.append(v)
                        elif k in ("pk", "ko"): kw[f"p{i}"] = v
                        elif k == "va": args += [value(m, i + 3 * j, forms[i]) for j in range(extra)]
                        elif k == "vk" and more:
                            kw["more"] = value(m, i, forms[i])
                            if kinds[0] == "po": kw["p0"] = value(m, i, forms[i])           # a name that is another parameter's, too
                    if backwards: kw = dict(reversed(kw.items()))
                    yield args, kw, named


class Formats(World):
    """Each call is run, and its lines in the log are read."""
    poll = 0.05
    chunk = ()

    async def main(self, env):
        self.bad, self.n = [], 0
        listen()
        try:
            async with self.docket(env, execution_ttl=S(0)) as d:
                env.spawn("w", self.serve(env))
                await asyncio.sleep(0.1)
                for kinds, marks, forms in self.chunk:
                    job = build(kinds, marks)
                    for args, kw, named in calls(kinds, marks, forms):
                        self.n += 1
                        RECORDS.clear()
                        env.data.job = job
                        env.data.served.register(job)
                        ex = await d.add(job, key="a")(*args, **kw)
                        for _ in range(100):
                            await asyncio.sleep(0.02)
                            if not env.instant(self.waiting(d)): break
                        about = [t for n, t, _ in RECORDS if n.startswith("docket") and "job(" in t and "Starting" not in t]
                        what = f"job({', '.join(k + ' ' + m for k, m in zip(kinds, marks))}) called with {len(args)} positional arguments and {sorted(kw)} of forms {forms}"
                        leak = [t for _, t, x in RECORDS if SECRET in t + x]
                        if leak: self.bad.append(("leak", f"{what}: the log shows {leak[0]!r}"))
                        if not about: self.bad.append(("silent", f"{what}: nothing is logged"))
                        for v, m in named:
                            if m in ("plain", "other", "noted"): continue
                            try: wants = [f"len {len(v)}"] if m == "length" else [repr(x) for x in v] if isinstance(v, (set, frozenset)) else [repr(v)]
                            except RuntimeError: continue
                            if want := next((w for w in wants if not all(w in t for t in about)), None): self.bad.append(("hidden", f"{what}: the log shows {about[:1]}, without {want[:60]}"))
                        if self.bad: return
        finally: deaf()

    async def waiting(self, d):
        s = await d.snapshot()
        return len(s.running) + len(s.future)

    async def serve(self, env):
        async with self.docket(env, execution_ttl=S(0)) as d:
            env.data.served = d
            async with self.worker(d, "w") as w: await w.run_forever()

    def check(self, env): return self.bad
    def counts(self, env): return self.n, self.n


class Unreadable:
    def __init__(self, word): self.word = word
    def __reduce__(self): return (explode, (self.word,))


def explode(word): raise ValueError("unreadable")


class Unstorable(Exception):
    def __reduce__(self): raise TypeError("can't be stored")


class Paths(World):
    """However a call goes, no line of the log shows what isn't to be shown."""
    poll = 0.25
    hold_limit = 0.8
    redelivery = 3.0
    window = 1.2
    settle = 5.0
    plan = ()
    acts = {}
    workers = 1
    functions = ("ok",)
    stolen_first = False
    unknown = ()

    def tasks(self, env):
        async def broken(): raise ValueError("no")
        Id, Bulk = Annotated[str, Logged], Annotated[list, Logged(length_only=True)]

        async def ok(name: Id, bulk: Bulk, card: str):
            async with body(env, name): await asyncio.sleep(0.2)

        async def fails(name: Id, bulk: Bulk, card: str):
            async with body(env, name): raise ValueError("x")

        async def flaky(name: Id, bulk: Bulk, card: str, retry: Retry = Retry(attempts=3, delay=S(0.3))):
            async with body(env, name): raise ValueError("again")

        async def timed(name: Id, bulk: Bulk, card: str, t: Timeout = Timeout(S(0.1))):
            async with body(env, name): await asyncio.sleep(3)

        async def unmet(name: Id, bulk: Bulk, card: str, x=Depends(broken)): pass

        async def perp(name: Id, bulk: Bulk, card: str, p: Perpetual = Perpetual(every=S(0.4))):
            async with body(env, name):
                if len(starts(env, name)) >= 3: p.cancel()

        async def perpfail(name: Id, bulk: Bulk, card: str, p: Perpetual = Perpetual(every=S(0.4))):
            async with body(env, name):
                if len(starts(env, name)) >= 3: p.cancel()
                raise ValueError("x")

        async def limited(name: Id, bulk: Bulk, card: str, c: ConcurrencyLimit = ConcurrencyLimit(1)):
            async with body(env, name): await asyncio.sleep(0.3)

        async def rated(name: Id, bulk: Bulk, card: str, r: RateLimit = RateLimit(1, per=S(1.0))):
            async with body(env, name): pass

        async def cooled(name: Id, bulk: Bulk, card: str, r: Cooldown = Cooldown(S(1.0))):
            async with body(env, name): pass

        async def debounced(name: Id, bulk: Bulk, card: str, r: Debounce = Debounce(S(0.3))):
            async with body(env, name): pass

        async def unstorable(name: Id, bulk: Bulk, card: str):
            async with body(env, name):
                import _thread
                return _thread.allocate_lock()

        async def unraisable(name: Id, bulk: Bulk, card: str):
            async with body(env, name): raise Unstorable("x")
        fns = {k: v for k, v in locals().items() if k in self.functions}
        if PROC.get() in ("w1", "w2"): fns = {k: v for k, v in fns.items() if k not in self.unknown}
        return fns

    def injections(self): return sorted(self.acts)
    inject_after_reads = True

    async def inject(self, env, which):
        for op in self.acts[which]: await self.do(env, *op)

    async def do(self, env, op, key=None, fn=None, delay=0, how="both"):
        d = env.data.client
        bulk, card = [SECRET] * 17, f"{SECRET}-card"
        if how == "unreadable": card = Unreadable(card)
        call = {"args": ((key, bulk, card), {}), "kw": ((), dict(card=card, bulk=bulk, name=key)), "both": ((key, bulk), dict(card=card)), "unreadable": ((key, bulk), dict(card=card)), "toomany": ((key, bulk, card, card), dict(other=card)),
                "wrong": ((), dict(nom=card))}[how]
        when = utc() + S(delay) if delay else None
        if op == "add": await d.add(d.fns[fn], key=key, when=when)(*call[0], **call[1])
        elif op == "replace": await d.replace(d.fns[fn], key=key, when=when or utc())(*call[0], **call[1])
        elif op == "cancel": await d.cancel(key)
        elif op == "strike": await d.strike(*key)
        elif op == "restore": await d.restore(*key)

    async def main(self, env):
        listen()
        env.data.lines = RECORDS
        try:
            async with self.client(env) as d:
                env.data.client = d
                if self.stolen_first:
                    for op in self.plan: await self.do(env, *op[1:])
                    await self.stolen(env)
                for n in range(self.workers): self.start_worker(env, f"w{n + 1}")
                env.explore = True
                t0 = env.t()
                for at, *op in self.plan if not self.stolen_first else ():
                    await asyncio.sleep(max(0, t0 + at - env.t()))
                    try: await self.do(env, *op)
                    except Exception as e: env.ev("refused", type(e).__name__)
                await asyncio.sleep(max(0, t0 + self.window - env.t()))
                env.explore = False
                await asyncio.sleep(self.settle)
        finally:
            env.data.lines = list(RECORDS)
            deaf()

    def check(self, env):
        out = []
        for n, t, x in env.data.lines:
            if SECRET in t + x:
                out.append((f"leak", f"the logger {n} shows an argument that isn't to be logged: {t[:600]!r} {x[:300] if SECRET in x else ''}"))
                break
        told = [t for n, t, _ in env.data.lines if n.startswith("docket")]
        for e in starts(env):
            if not self.plain: break
            if not any(repr(e[3]) in t and "len 17" in t for t in told): out.append(("hidden", f"no line of the log about {e[3]!r} shows its logged arguments"))
        return out[:3]
    plain = True

    def covered(self, env): return {t[0] for n, t, _ in env.data.lines if n.startswith("docket") and t}


def work(tier):
    deep = tier == "thorough"
    out, every = [], []
    for m in MARKS:
        for ks in signatures(1): every += [(ks, (m,), (f,)) for f in FORMS]
    for ks in signatures(2): every += [(ks, ms, ("str", "list")) for ms in itertools.product(MARKS, repeat=2)]
    trio = ("plain", "type", "length")
    for ks in signatures(3): every += [(ks, ms, fs) for ms in itertools.product(trio, repeat=3) for fs in ([("str", "list", "dict")] if not deep else itertools.product(("str", "dict"), repeat=3))]
    size = 100
    out += [(Formats(name=f"formats-{i // size}", chunk=every[i:i + size], max_ops=10 ** 6, max_time=1e6), Bounds(0)) for i in range(0, len(every), size)]
    kinds = ("ok", "fails", "flaky", "timed", "unmet", "perp", "perpfail", "limited", "rated", "cooled", "debounced", "unstorable", "unraisable")
    incomparable = [("strike", ("{f}", "card", ">", 5)), ("strike", (None, "bulk", "<", 5)), ("strike", ("{f}", "card", "between", (1, 2)))]
    for f in kinds:
        plan = [(0.3, "add", "a", f, 0, "args"), (0.35, "add", "b", f, 0, "kw"), (0.4, "add", "c", f, 0.5)]
        acts = {"cancel": (("cancel", "a"),), "replace": (("replace", "a", f, 0.15),), "strike": (("strike", (f,)),), "struck-add": (("strike", (f,)), ("add", "x", f), ("replace", "c", f)),
                "incomparable": tuple((op, tuple(f if v == "{f}" else v for v in c)) for op, c in incomparable) + (("add", "y", f),)}
        out.append((Paths(name=f"{f}-user", functions=(f,), plan=plan, acts=acts), Bounds(1 if not deep else 2, m=1, inject=1, hold=1)))
        out.append((Paths(name=f"{f}-error", functions=(f,), plan=plan), Bounds(1, m=0, err=1)))
        if deep or f in ("ok", "flaky", "perp", "limited"): out.append((Paths(name=f"{f}-death", functions=(f,), plan=plan, workers=2), Bounds(1, m=0, crash=1)))
        out.append((Paths(name=f"{f}-stolen", functions=(f,), plan=[(0, "add", "a", f), (0, "add", "b", f)], stolen_first=True, settle=12.0), Bounds(0)))
    for how in ("unreadable", "toomany", "wrong"):
        out.append((Paths(name=how, functions=("ok", "flaky"), plan=[(0.3, "add", "a", "ok", 0, how), (0.3, "add", "b", "flaky", 0.2, how), (0.5, "strike", (None, "card", ">", 5)), (0.6, "add", "c", "ok", 0, how)], plain=False), Bounds(1, m=0, err=1)))
    out.append((Paths(name="unknown", functions=("ok", "flaky"), unknown=("ok",), plan=[(0.3, "add", "a", "ok", 0), (0.3, "add", "b", "flaky", 0.2), (0.4, "add", "c", "ok", 0.3)], plain=False), Bounds(1, m=0, err=1)))
    return out
