"""C26: dependencies are entered once, shared and unwound in reverse order."""
import inspect, itertools
from contextlib import asynccontextmanager, contextmanager
from typing import Annotated
from docket import Depends, Shared, Timeout, Retry, TaskKey, TaskArgument, CurrentExecution, CurrentDocket, CurrentWorker
from docket.dependencies import Dependency
from mc.world import *
from mc.explore import Bounds

RULE = ("every graph of up to three (thorough: four) dependencies of every kind, declared in every order, with a failure to enter or to clean up at every position and every way a body ends (also being "
        "cancelled while dependencies are entered or cleaned up), hundreds of executions interleaving; worker dependencies and annotations; and shared dependencies asked for by concurrent tasks of one or two "
        "workers, in every order, with failures and cancellations at every point")
KINDS = ("acm", "cm", "async", "sync")
P = inspect.Parameter


def signed(f, params):
    f.__signature__ = inspect.Signature([P(n, P.KEYWORD_ONLY, default=d) for n, d in params])
    return f


class Spec:
    """A task: its dependency graph and what happens to it."""

    def __init__(self, deps, kinds, tops, end="ok", fail=None, exitfail=None, over=None):
        self.deps, self.kinds, self.tops, self.end, self.fail, self.exitfail, self.over = deps, kinds, tops, end, fail, exitfail, over

    def __str__(self): return f"deps {self.deps} kinds {'/'.join(self.kinds)} asked for {self.tops} end {self.end} fail {self.fail} exitfail {self.exitfail} overridden {self.over}"

    def reach(self):
        out, todo = set(), [t for t in self.tops if t != self.over]
        while todo:
            i = todo.pop()
            if i not in out:
                out.add(i)
                todo += self.deps[i]
        return out


class Graphs(World):
    poll = 0.5
    redelivery = 60.0
    concurrency = 1000
    ttl = 60.0
    max_ops = 500000
    max_time = 1e6
    specs = ()
    nap = 0.003
    worker_deps = ()
    annotated = False
    concurrent = True
    reps = 1
    taken = False

    def build(self, env, n, spec):
        log = self.log
        facs = {}
        nap = self.nap

        def value(i, key, args):
            self.tok += 1
            t = (i, self.tok)
            log.append(("enter", i, key[0], key[1], t, dict(args)))
            if spec.fail == i: raise RuntimeError(f"enter {i}")
            return t

        def gone(i, key, t, exc=None):
            log.append(("exit", i, key[0], key[1], t, None))
            if spec.exitfail == i: raise RuntimeError(f"exit {i}")

        def wait(i, key, k): return asyncio.sleep(nap * (1 + (7 * n + 3 * i + len(log)) % 5))

        def who(kw):
            e = kw.pop("ex")
            if kw.pop("key") != e.key: log.append(("mixed", None, e.key, e.attempt, None, None))
            return (e.key, e.attempt), kw
        def use(j): return facs[j] if spec.kinds[j] == "class" else Depends(facs[j])
        for i, k in enumerate(spec.kinds):
            def make(i=i, k=k):
                slow_in = spec.end == f"cancel-enter-{i}"
                slow_out = spec.end == f"cancel-exit-{i}"
                if k == "class":
                    class Resource(Dependency):
                        def __init__(self): self.held = []

                        async def __aenter__(self):
                            from docket.dependencies import current_execution
                            e = current_execution.get()
                            await wait(i, e.key, 0)
                            t = value(i, (e.key, e.attempt), {})
                            self.held.append((e.key, e.attempt, t))
                            return t

                        async def __aexit__(self, *a):
                            from docket.dependencies import current_execution
                            e = current_execution.get()
                            mine = [h for h in self.held if h[:2] == (e.key, e.attempt)][-1]
                            gone(i, mine[:2], mine[2])
                    return Resource()
                if k == "sync":
                    def f(**kw):
                        key, kw = who(kw)
                        return value(i, key, kw)
                elif k == "async":
                    async def f(**kw):
                        key, kw = who(kw)
                        await wait(i, key, 0)
                        if slow_in: await asyncio.sleep(1)
                        return value(i, key, kw)
                elif k == "cm":
                    @contextmanager
                    def f(**kw):
                        key, kw = who(kw)
                        t = value(i, key, kw)
                        try: yield t
                        finally: gone(i, key, t)
                else:
                    @asynccontextmanager
                    async def f(**kw):
                        key, kw = who(kw)
                        await wait(i, key, 0)
                        if slow_in: await asyncio.sleep(1)
                        t = value(i, key, kw)
                        try: yield t
                        finally:
                            try:
                                if slow_out: await asyncio.sleep(1)
                                await asyncio.sleep(nap)
                            finally:
                                gone(i, key, t)
                return f
            f = make()
            facs[i] = f if k == "class" else signed(f, [(f"d{j}", use(j)) for j in spec.deps[i]] + [("key", TaskKey()), ("ex", CurrentExecution())])
        deco = [("t", Timeout(S(0.3)))] if spec.end == "timeout" else [("r", Retry(attempts=2, delay=S(0)))] if spec.end == "retry" else []

        async def body(**kw):
            kw.pop("t", None)
            kw.pop("r", None)
            key, kw = who(kw)
            log.append(("start", None, key[0], key[1], None, dict(kw)))
            try:
                await asyncio.sleep(nap * (n % 3))
                if spec.end == "raise" or spec.end == "retry" and key[1] == 1: raise ValueError("body")
                if spec.end in ("timeout", "cancel"): await asyncio.sleep(2)
            finally:
                log.append(("finish", None, key[0], key[1], None, None))
        body.__name__ = f"f{n}"
        return signed(body, deco + [(f"d{i}", use(i)) for i in spec.tops] + [("key", TaskKey()), ("ex", CurrentExecution())])

    async def main(self, env):
        self.log, self.tok, self.bad = [], 0, []
        async with self.client(env) as d:
            wd = self.make_worker_deps(env)
            for n, s in enumerate(self.specs): d.register(self.build(env, n, s), names=[f"f{n}"])
            if self.taken:
                # everything is redelivered after the death of a worker that had taken it
                for n, s in enumerate(self.specs):
                    kw = {f"d{s.over}": "given"} if s.over is not None else {}
                    for r in range(self.reps): await d.add(f"f{n}", key=f"k{n}.{r}")(**kw)
                await self.stolen(env)
                await asyncio.sleep(self.redelivery)
            async with self.worker(d, "w", **({"dependencies": wd} if wd else {})) as w:
                t = asyncio.get_running_loop().create_task(w.run_forever())
                for n, s in enumerate(self.specs if not self.taken else ()):
                    kw = {f"d{s.over}": "given"} if s.over is not None else {}
                    for r in range(self.reps): await d.add(f"f{n}", key=f"k{n}.{r}")(**kw)
                await asyncio.sleep(0.7)
                for n, s in enumerate(self.specs):
                    if s.end.startswith("cancel"):
                        for r in range(self.reps): await d.cancel(f"k{n}.{r}")
                await asyncio.sleep(3)
                self.states = {}
                for n, s in enumerate(self.specs):
                    for r in range(self.reps): self.states[f"k{n}.{r}"] = env.instant(d.get_execution(f"k{n}.{r}")).state.value
                t.cancel()
                await asyncio.gather(t, return_exceptions=True)
        return True

    def make_worker_deps(self, env): return None

    def check(self, env):
        out, per, seen = [], {}, set()

        def say(key, text, n):
            if key in seen: return
            seen.add(key)
            mine = [(x[0], x[1], x[3]) for x in self.log if x[2].split(".")[0] == f"k{n}"]
            out.append((key, f"{text}; {self.specs[n]}; history {mine}"))
        for x in self.log: per.setdefault(x[2], {}).setdefault(x[3], []).append(x)
        for n, s in enumerate(self.specs):
            for r in range(self.reps):
                k = f"k{n}.{r}"
                attempts = per.get(k, {})
                for a, h in attempts.items(): self.attempt(s, n, k, a, h, say)
                runs = sum(x[0] == "start" for h in attempts.values() for x in h)
                fails = s.fail is not None and s.fail in s.reach()
                early = s.end.startswith("cancel-enter") and int(s.end[-1]) in s.reach() and s.kinds[int(s.end[-1])] in ("async", "acm")
                if fails or early: want = 0
                else: want = 2 if s.end == "retry" and s.exitfail is None else 1
                if s.end == "retry" and s.exitfail is not None: continue        # (a failing cleanup is tried again as well)
                if runs != want: say("runs", f"{k} ran {runs} times instead of {want}", n)
                if not attempts and s.reach() and not early: say("nothing", f"{k} was not started at all", n)
                if s.exitfail is None:
                    slow = s.end.startswith("cancel-exit") and int(s.end[-1]) in s.reach() and s.kinds[int(s.end[-1])] == "acm"
                    final = {"failed"} if fails and not early else {"failed"} if s.end in ("raise", "timeout") else {"cancelled"} if s.end == "cancel" or early else {"completed"}
                    if fails and early: final = {"failed", "cancelled"}
                    if slow: final |= {"cancelled"}
                    if fails and s.end == "cancel": final = {"failed", "cancelled"}
                    if self.states[k] not in final: say(f"state-{self.states[k]}", f"{k} ends as {self.states[k]}, expected {sorted(final)}", n)
        return out

    def attempt(self, s, n, k, a, h, say):
        enters = [x for x in h if x[0] == "enter"]
        exits = [x for x in h if x[0] == "exit"]
        if any(x[0] == "mixed" for x in h): say("mixed", f"{k}: a dependency saw another execution's key", n)
        at = {}
        for pos, x in enumerate(h):
            if x[0] == "enter": at.setdefault(x[1], []).append(pos)
        ids = [x[1] for x in enters]
        ok = [x for x in enters if x[1] != s.fail]
        for i in {x[1] for x in ok}:
            c = sum(x[1] == i for x in ok)
            if c > 1: say("entered-twice", f"{k}: dependency {i} was resolved {c} times for one execution", n)
        alien = set(ids) - s.reach()
        if alien: say("not-asked-for", f"{k}: {sorted(alien)} were resolved", n)
        tok = {x[1]: x[4] for x in ok}
        for x in enters:
            for name, v in x[5].items():
                if v != tok.get(int(name[1:])): say("wrong-value", f"{k}: dependency {x[1]} was given {v} for {name}, which was {tok.get(int(name[1:]))}", n)
        st = [(p, x) for p, x in enumerate(h) if x[0] == "start"]
        fin = [p for p, x in enumerate(h) if x[0] == "finish"]
        for p, x in st:
            missing = s.reach() - {y[1] for y in h[:p] if y[0] == "enter" and y[1] != s.fail}
            if missing: say("started-early", f"{k}: the body started without {sorted(missing)}", n)
            for i in s.tops:
                v = x[5].get(f"d{i}")
                if v != ("given" if i == s.over else tok.get(i)): say("wrong-argument", f"{k}: the body was given {v} for d{i}, which was {tok.get(i)}", n)
        want = [x[4] for x in ok if s.kinds[x[1]] in ("acm", "cm", "class")]
        got = [x[4] for x in exits]
        if sorted(got) != sorted(want): say("unbalanced", f"{k}: entered {want}, cleaned up {got}", n)
        elif got != want[::-1]: say("order", f"{k}: entered {want}, cleaned up {got}", n)
        if exits and fin and h.index(exits[0]) < fin[-1]: say("cleaned-up-early", f"{k}: cleaned up before the body ended", n)

    def counts(self, env): return len(self.specs) * self.reps, len(self.log)

    def covered(self, env): return {f"{'fails' if s.fail is not None else 'cleanup fails' if s.exitfail is not None else 'overridden' if s.over is not None else ''} {s.end}" for s in self.specs}


class WorkerDeps(Graphs):
    """Dependencies of the worker and of annotations beside those of the task."""
    variant = "ok"

    def tasks(self, env): return {}

    async def main(self, env):
        self.log, self.tok, self.bad = [], 0, []
        log = self.log
        v = self.variant

        def cm(name, fail=False):
            @asynccontextmanager
            async def f(key: str = TaskKey()):
                await asyncio.sleep(0.01)
                if fail:
                    log.append((key, "fail", name))
                    raise RuntimeError(name)
                log.append((key, "enter", name))
                try: yield name
                finally: log.append((key, "exit", name))
            return f

        class Bound(Dependency):
            def __init__(self, name="?", fail=False, value=None): self.name, self.fail, self.value = name, fail, value

            def bind_to_parameter(self, parameter, value): return Bound(f"{self.name}({parameter}={value})", self.fail, value)

            async def __aenter__(self):
                from docket.dependencies import current_execution
                self.key = current_execution.get().key
                if self.fail:
                    log.append((self.key, "fail", self.name))
                    raise RuntimeError(self.name)
                log.append((self.key, "enter", self.name))
                return self

            async def __aexit__(self, *a): log.append((self.key, "exit", self.name))

        async with self.client(env) as d:
            one, two, three0, four = cm("w0", v == "w0"), cm("w1", v == "w1"), cm("t0", v == "t0"), cm("t1", v == "t1")

            @asynccontextmanager
            async def three(z: str = TaskArgument("x"), y: int = TaskArgument(), inner: str = Depends(three0), db: Docket = CurrentDocket(), w: Worker = CurrentWorker()):
                assert db.name == self.docket_name and w.name == "w"
                yield f"{inner}({z},{y})"

            async def task(x: Annotated[str, Bound("a0", v == "a0"), Bound("a1", v == "a1")], y: Annotated[int, Bound("b0", v == "b0")] = 5, t: str = Depends(three), u: str = Depends(four), key: str = TaskKey()):
                log.append((key, "start", (x, y, t, u)))
                await asyncio.sleep(0.05)
                log.append((key, "finish", None))
                if v == "raise": raise ValueError("x")
            d.register(task, names=["task"])
            async with self.worker(d, "w", dependencies=[Depends(one), Depends(two)] if self.listed else {"one": Depends(one), "two": Depends(two)}) as w:
                t = asyncio.get_running_loop().create_task(w.run_forever())
                await d.add(task, key="k0")("p")
                await d.add(task, key="k1")(x="q", y=7)
                await d.add(task, key="k2")("r", 8)
                await asyncio.sleep(2)
                t.cancel()
                await asyncio.gather(t, return_exceptions=True)
                self.states = {k: env.instant(d.get_execution(k)).state.value for k in ("k0", "k1", "k2")}
        return True

    listed = True

    def check(self, env):
        out = []
        v = self.variant
        for k, x, y in (("k0", "p", 5), ("k1", "q", 7), ("k2", "r", 8)):
            h = [(a, b) for kk, a, b in self.log if kk == k]
            ctx = f"{k} of the task with worker dependencies and annotations, variant {v!r}: {h}; {self.states}"
            names = [b for a, b in h if a == "enter"]
            ends = [b for a, b in h if a == "exit"]
            body = [b for a, b in h if a == "start"]
            full = {"w0", "w1", "t0", "t1", f"a0(x={x})", f"a1(x={x})", f"b0(y={y})"}
            if ends != names[::-1]: out.append(("order", f"entered {names}, cleaned up {ends}: {ctx}"))
            if v in ("ok", "raise"):
                if set(names) != full or len(names) != len(full): out.append(("resolved", f"resolved {names}, declared {sorted(full)}: {ctx}"))
                if body != [(x, y, f"t0({x},{y})", "t1")]: out.append(("body", f"the body got {body}: {ctx}"))
                i = [a for a, b in h]
                if "start" in i and not max(j for j, a in enumerate(i) if a == "enter") < i.index("start") < i.index("finish") < i.index("exit"): out.append(("time", ctx))
            elif body: out.append(("started", f"the body started: {ctx}"))
            want = "completed" if v == "ok" else "failed"
            if self.states[k] != want: out.append((f"state-{self.states[k]}", f"it ends as {self.states[k]}: {ctx}"))
        return out

    def counts(self, env): return 3, len(self.log)
    def covered(self, env): return {f"worker dependencies: {self.variant}"}


class SharedDeps(World):
    """Tasks asking for shared dependencies at once; the operations before each asks are delayed in every order."""
    poll = 0.5
    redelivery = 60.0
    delays = (0, 0, 0)
    kind = "acm"
    workers = 1
    fail = False            # the first attempt to set up fails
    cancel = None           # (task, at)
    nested = False
    stop_at = 1.5

    def tasks(self, env):
        return {}

    async def run_one(self, env, name):
        log = self.log
        n = [0]

        def enter(what):
            self.tok += 1
            t = (what, self.tok)
            n[0] += 1
            log.append((env.t(), name, "setup", t))
            if self.fail and n[0] == 1: raise RuntimeError("setup")
            return t

        def leave(t): log.append((env.t(), name, "down", t))
        if self.kind == "acm":
            @asynccontextmanager
            async def base():
                await asyncio.sleep(0.1)
                t = enter("s")
                await asyncio.sleep(0.05)
                try: yield t
                finally: leave(t)
        elif self.kind == "cm":
            @contextmanager
            def base():
                t = enter("s")
                try: yield t
                finally: leave(t)
        elif self.kind == "async":
            async def base():
                await asyncio.sleep(0.1)
                return enter("s")
        else:
            def base(): return enter("s")
        if self.nested:
            @asynccontextmanager
            async def top(b=Shared(base)):
                await asyncio.sleep(0.02)
                t = ("top", b)
                log.append((env.t(), name, "setup", t))
                try: yield t
                finally: leave(t)
        else: top = base

        @asynccontextmanager
        async def via(s=Shared(top)):
            yield ("via", s)

        async def task(i: int, s=Shared(top)):
            log.append((env.t(), name, "start", i, s))
            await asyncio.sleep(0.2)
            log.append((env.t(), name, "finish", i, s))

        async def indirect(i: int, v=Depends(via), s=Shared(base)):
            if not self.nested and v[1] != s: log.append((env.t(), name, "differ", i, (v, s)))
            log.append((env.t(), name, "start", i, v[1]))
            await asyncio.sleep(0.2)
            log.append((env.t(), name, "finish", i, v[1]))
        async with self.client(env) as d:
            d.register(task, names=["task"])
            d.register(indirect, names=["indirect"])
            async with self.worker(d, name, concurrency=self.concurrency) as w:
                await w.run_forever()

    concurrency = 10

    async def main(self, env):
        self.log, self.tok = [], 0
        async with self.client(env) as d:
            async def stub(i: int): raise AssertionError
            for n in ("task", "indirect"): d.register(stub, names=[n])
            ws = {f"w{i + 1}": env.spawn(f"w{i + 1}", self.run_one(env, f"w{i + 1}")) for i in range(self.workers)}
            await asyncio.sleep(0.2)
            t0 = env.t()
            env.explore = True
            for i, dl in sorted(enumerate(self.delays), key=lambda x: x[1]):
                await asyncio.sleep(max(0, t0 + dl - env.t()))
                await d.add("indirect" if i % 3 == 2 else "task", key=f"k{i}")(i)
            if self.cancel:
                await asyncio.sleep(max(0, t0 + self.cancel[1] - env.t()))
                await d.cancel(f"k{self.cancel[0]}")
            await asyncio.sleep(t0 + self.stop_at - env.t())
            env.explore = False
            for t in ws.values(): t.cancel()
            await asyncio.sleep(1)
            self.states = {i: getattr(getattr(env.instant(d.get_execution(f"k{i}")), "state", None), "value", None) for i in range(len(self.delays))}
            await asyncio.sleep(1)
        return True

    def check(self, env):
        out = []
        ctx = f"{self.log}; {self.states}"
        for w in {x[1] for x in self.log}:
            h = [x for x in self.log if x[1] == w]
            if any(x[2] == "differ" for x in h): out.append(("differ", f"two uses of a shared dependency by a task differ: {ctx}"))
            used = {x[4] for x in h if x[2] == "start"}
            if len(used) > 1: out.append(("not-shared", f"tasks of {w} were given {sorted(used)}: {ctx}"))
            ups = [x[3] for x in h if x[2] == "setup"]
            good = {what: [u for u in ups if u[0] == what] for what in {u[0] for u in ups}}
            for what, us in good.items():
                allowed = 1 + (self.fail and what == "s") + bool(self.cancel)      # a failed or a cancelled setting up may be repeated
                if len(us) > allowed: out.append(("set-up-twice", f"{w} set {what} up {len(us)} times: {ctx}"))
            downs = [x[3] for x in h if x[2] == "down"]
            if self.kind in ("acm", "cm"):
                entered = ups[1:] if self.fail else ups
                entered = [u for u in entered if u[0] != "s" or self.kind in ("acm", "cm")]
                need = [u for u in entered if u in used or any(u == x[4] or isinstance(x[4], tuple) and x[4][1] == u for x in h if x[2] == "start")]
                for u in need:
                    if downs.count(u) != 1: out.append(("torn-down", f"{w}: {u} was torn down {downs.count(u)} times: {ctx}"))
            if len(set(downs)) != len(downs): out.append(("torn-down-twice", f"{w}: {downs}: {ctx}"))
            for x in h:
                if x[2] == "down" and any(y[2] == "finish" and y[0] > x[0] for y in h) and x[3] in used: out.append(("torn-down-early", f"{w}: {x[3]} was torn down while in use: {ctx}"))
        for i in range(len(self.delays)):
            if self.cancel and self.cancel[0] == i: continue
            n = sum(x[2] == "start" and x[3] == i for x in self.log)
            if n > 1 or n == 0 and not self.fail: out.append(("runs", f"task {i} ran {n} times: {ctx}"))
            if n == 1 and self.states[i] != "completed": out.append((f"state-{self.states[i]}", f"task {i} ends as {self.states[i]}: {ctx}"))
        if self.fail and self.kind and sum(x[2] == "start" for x in self.log) < 0: out.append(("fails-on", f"after one failure nothing runs: {ctx}"))
        return out

    def covered(self, env): return {f"shared {self.kind} {'nested ' if self.nested else ''}{'fails ' if self.fail else ''}{'cancelled ' if self.cancel else ''}on {self.workers}"}


def graphs(n, kinds, ends):
    """Specs: every graph of n dependencies."""
    alldeps = list(itertools.product(*[[tuple(c) for r in range(i + 1) for c in itertools.combinations(range(i), r)] for i in range(n)]))
    tops = [t for r in range(1, n + 1) for t in itertools.permutations(range(n), r)]
    for deps in alldeps:
        for ks in kinds(n):
            for t in tops:
                s = Spec(deps, ks, t)
                if len(s.reach()) < n and n > 1: continue       # (covered by the smaller graphs)
                yield from ends(deps, ks, t)


def all_ends(deps, ks, t):
    n = len(ks)
    for e in ("ok", "raise", "cancel", "timeout", "retry"): yield Spec(deps, ks, t, e)
    for i in range(n):
        for e in ("ok", "retry"): yield Spec(deps, ks, t, e, fail=i)
        if ks[i] in ("acm", "cm", "class"):
            for e in ("ok", "raise", "cancel"): yield Spec(deps, ks, t, e, exitfail=i)
        if ks[i] in ("acm", "async"): yield Spec(deps, ks, t, f"cancel-enter-{i}")
        if ks[i] == "acm": yield Spec(deps, ks, t, f"cancel-exit-{i}")
    for i in t: yield Spec(deps, ks, t, "ok", over=i)


def some_ends(deps, ks, t):
    out = list(all_ends(deps, ks, t))
    h = sum(4 ** i * (KINDS + ("class",)).index(k) for i, k in enumerate(ks)) + sum(3 ** j * (len(d) + 1) for j, d in enumerate(deps)) + sum(7 ** j * x for j, x in enumerate(t))
    yield from (out[(h + 5 * j) % len(out)] for j in range(3))


def work(tier):
    deep = tier == "thorough"
    out = []
    all_kinds = lambda n: itertools.product(KINDS, repeat=n)
    specs = list(graphs(1, all_kinds, all_ends)) + list(graphs(2, all_kinds, all_ends))
    specs += graphs(3, all_kinds if deep else lambda n: itertools.product(("acm", "cm", "async"), repeat=n), all_ends if deep else some_ends)
    if deep: specs += graphs(4, lambda n: [("acm",) * n, ("cm",) * n, ("async", "acm") * (n // 2), ("acm", "cm") * (n // 2)], some_ends)
    per = 300
    for i in range(0, len(specs), per): out.append((Graphs(name=f"graphs-{i}", specs=specs[i:i + per]), Bounds(0)))
    # dependencies of one's own class, asked for by the task or by another dependency
    classy = lambda n: [ks for ks in itertools.product(KINDS + ("class",), repeat=n) if "class" in ks]
    own = [x for n in (1, 2, 3) for x in graphs(n, classy if n < 3 or deep else lambda n: [ks for ks in itertools.product(("acm", "sync", "class"), repeat=n) if "class" in ks], all_ends if n < 3 or deep else some_ends)
           if all(k != "class" or not x.deps[i] and sum(i in y for y in x.deps) + (i in x.tops) == 1 for i, k in enumerate(x.kinds))]
    for i in range(0, len(own), per): out.append((Graphs(name=f"own-{i}", specs=own[i:i + per]), Bounds(0)))
    # several executions of the same function at once
    same = list(graphs(2, all_kinds, lambda d, k, t: [Spec(d, k, t, "ok"), Spec(d, k, t, "raise")]))
    for i in range(0, len(same), 60): out.append((Graphs(name=f"same-{i}", specs=same[i:i + 60], reps=5), Bounds(0)))
    again = list(graphs(1, all_kinds, all_ends)) + list(graphs(2, lambda n: [(k,) * n for k in KINDS], all_ends))
    out.append((Graphs(name="redelivered", specs=again, taken=True, redelivery=2.0), Bounds(0)))
    out.append((Graphs(name="redelivered-same", specs=same[::7], reps=4, taken=True, redelivery=2.0), Bounds(0)))
    for v in ("ok", "raise", "w0", "w1", "t0", "t1", "a0", "a1", "b0"):
        for listed in (True, False): out.append((WorkerDeps(name=f"worker-{v}-{listed}", variant=v, listed=listed), Bounds(0)))
    for kind in KINDS:
        for nested in (False, True):
            for delays in sorted({p for base in ((0, 0, 0), (0, 0.05, 0.12), (0, 0.13, 0.5)) for p in itertools.permutations(base)}):
                for workers in (1, 2):
                    name = f"{kind}-{'nested' if nested else 'plain'}-{'-'.join(map(str, delays))}-{workers}"
                    kw = dict(kind=kind, nested=nested, delays=delays, workers=workers)
                    out.append((SharedDeps(name=f"shared-{name}", **kw), Bounds(0 if not deep else 1, m=1, hold=1)))
                    if delays == tuple(sorted(delays)):
                        out.append((SharedDeps(name=f"shared-fails-{name}", fail=True, **kw), Bounds(0)))
                        for who in range(3):
                            for at in (0.0, 0.05, 0.11, 0.13, 0.16, 0.3) if not deep else [x / 50 for x in range(25)]:
                                if at >= delays[who]: out.append((SharedDeps(name=f"shared-cancel-{who}-{at}-{name}", cancel=(who, at), **kw), Bounds(0)))
    return out
