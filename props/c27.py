"""C27: a timeout interrupts an overlong run, never a timely one."""
import itertools
from docket import Timeout, Retry, Perpetual
from docket.execution import ExecutionCancelled
from mc.world import *
from mc.explore import Bounds

RULE = ("every combination of body duration, extensions (times and amounts), way of running and ending (plain, cleanup, suppressing the interruption, own "
        "timeout error, failing, structured concurrency), retry setting and cancellation on a grid in virtual time; two tasks with interleaved deadlines")
T = 1.0
TOL = 0.02


class Grid(World):
    poll = 0.05
    redelivery = 60.0
    concurrency = 5000
    max_ops = 10 ** 7
    max_time = 1e9
    warm_runs = 1
    where = "task"          # the timeout declared by the task or by the worker
    workers = 1
    part = (0, 1)

    def cases(self):
        ext = [(), ((0.5, 0.6),), ((0.5, None),), ((0.2, 0.3), (0.9, 0.4)), ((0.5, 0.6), (1.4, 0.6)), ((1.2, 5.0),), ((0.1, None), (1.5, None))]
        out = [dict(ext=e, dur=d, kind="sleep", retry=None) for e in ext for d in (0.0, 0.3, 0.7, 0.96, 1.04, 1.5, 1.7, 2.3, 3.1)]
        for k in ("swallow", "cleanup", "own", "fail", "gather", "group", "waitfor", "child", "steps", "late-fail", "nested-timeout", "busy-cleanup"):
            out += [dict(ext=e, dur=d, kind=k, retry=None) for e in ((), ((0.5, 0.6),)) for d in (0.0, 0.4, 0.96, 1.04, 1.5, 1.9)]
        for n in (1, 2, 3):
            for delay in (0.0, 0.4):
                for plan in itertools.product((0.3, 1.3), repeat=n):
                    out.append(dict(ext=(), dur=plan, kind="sleep", retry=(n, delay)))
                out.append(dict(ext=((0.5, 0.6),), dur=(1.3, 1.8, 0.2)[:n], kind="sleep", retry=(n, delay)))
                out.append(dict(ext=(), dur=(0.3,) * n, kind="own", retry=(n, delay)))
        out += [dict(ext=e, dur=d, kind=k, retry=None, cancel=c) for e in ((), ((0.5, 0.6),)) for d in (0.8, 1.5, 3.0) for c in (0.35, 0.9) for k in ("sleep", "cleanup")]
        return out[self.part[0]::self.part[1]]

    def tasks(self, env):
        cases = self.cases()

        async def go(i, n, timeout):
            c = cases[i]
            dur = c["dur"] if not isinstance(c["dur"], tuple) else c["dur"][n - 1]
            async with body(env, f"t{i}", n):
                async def extend():
                    for at, by in c["ext"]:
                        await asyncio.sleep(max(0, t0 + at - asyncio.get_running_loop().time()))
                        if timeout is not None: timeout.extend(S(by) if by is not None else None)
                        if timeout is not None: env.ev("left", f"t{i}", round(timeout.remaining().total_seconds(), 3))
                t0 = asyncio.get_running_loop().time()
                x = asyncio.create_task(extend()) if c["ext"] else None
                k = c["kind"]
                try:
                    if k == "sleep": await asyncio.sleep(dur)
                    elif k == "fail":
                        await asyncio.sleep(dur)
                        raise ValueError(f"v{i}")
                    elif k == "own":
                        await asyncio.sleep(dur)
                        raise asyncio.TimeoutError(f"own{i}")
                    elif k == "nested-timeout":
                        async with asyncio.timeout(dur): await asyncio.sleep(50)
                    elif k == "swallow":
                        try: await asyncio.sleep(dur)
                        except asyncio.CancelledError: env.ev("interrupted", f"t{i}")
                    elif k == "cleanup":
                        try: await asyncio.sleep(dur)
                        finally: env.ev("cleanup", f"t{i}")
                    elif k == "busy-cleanup":
                        try: await asyncio.sleep(dur)
                        except asyncio.CancelledError:
                            env.ev("interrupted", f"t{i}")
                            await asyncio.sleep(0.5)
                            raise
                    elif k == "late-fail":
                        try: await asyncio.sleep(dur)
                        except asyncio.CancelledError:
                            env.ev("interrupted", f"t{i}")
                            raise ValueError("cleanup failed")
                    elif k == "gather": await asyncio.gather(asyncio.sleep(dur), asyncio.sleep(dur / 2))
                    elif k == "group":
                        async with asyncio.TaskGroup() as g:
                            g.create_task(asyncio.sleep(dur))
                            g.create_task(asyncio.sleep(dur / 2))
                    elif k == "waitfor": await asyncio.wait_for(asyncio.sleep(dur), 60)
                    elif k == "child": await asyncio.create_task(asyncio.sleep(dur))
                    elif k == "steps":
                        for _ in range(20): await asyncio.sleep(dur / 20)
                finally:
                    if x: x.cancel()
                return f"r{i}"
        fns = {}

        def make(i, c):
            if c["retry"]:
                n, delay = c["retry"]

                async def fn(timeout: Timeout = Timeout(S(T)), retry: Retry = Retry(attempts=n, delay=S(delay))): return await go(i, retry.attempt, timeout)
            elif self.where == "worker":
                async def fn(): return await go(i, 1, None)
            else:
                async def fn(timeout: Timeout = Timeout(S(T))): return await go(i, 1, timeout)
            fn.__name__ = fn.__qualname__ = f"t{i}"
            return fn
        return {f"t{i}": make(i, c) for i, c in enumerate(cases) if self.use(c)}

    def use(self, c): return self.where == "task" or not c["ext"] and not c["retry"]

    async def main(self, env):
        cases = self.cases()
        kw = {"dependencies": {"limit": Timeout(S(T))}} if self.where == "worker" else {}
        async with self.client(env) as d:
            for n in range(self.workers): self.start_worker(env, f"w{n}", **kw)
            await asyncio.sleep(0.5)
            t0 = env.t()
            cancels = []
            for i, c in enumerate(cases):
                if not self.use(c): continue
                await d.add(d.fns[f"t{i}"], key=f"k{i}")()
                if c.get("cancel"): cancels.append((c["cancel"], i))
            for at, i in sorted(cancels):
                await asyncio.sleep(max(0, t0 + at - env.t()))
                await d.cancel(f"k{i}")
            await asyncio.sleep(12)
            out = {}
            for i, c in enumerate(cases):
                if not self.use(c): continue
                e = await d.get_execution(f"k{i}")
                try: r = await e.get_result(timeout=S(0.2))
                except Exception as x: r = f"{type(x).__name__}:{x}"
                out[i] = (e.state.value, r)
            return out

    def deadline(self, c):
        """When the run would be interrupted: extensions count while the deadline has not passed."""
        d = T
        for at, by in c["ext"]:
            if at < d: d += by if by is not None else T
        return d

    def check(self, env):
        out, seen = [], set()
        runs = {}
        for e in env.events:
            if e[2] == "start": runs.setdefault(e[3], []).append([e[0], None, None, e[4]])
            elif e[2] == "finish":
                for r in runs[e[3]]:
                    if r[3] == e[4]: r[1], r[2] = e[0], e[5]
        inter = {}
        for e in evs(env, "interrupted"): inter.setdefault(e[3], []).append(e[0])
        for i, c in enumerate(self.cases()):
            if not self.use(c): continue
            r = runs.get(f"t{i}", [])
            state, res = env.value[i]
            what = f"timeout of {T} s declared by the {self.where}, {({k: v for k, v in c.items() if v is not None})}: runs {[(round(a, 3), b and round(b, 3), x) for a, b, x, _ in r]}, record {state}, result {res}"
            dl, k = self.deadline(c), c["kind"]
            if not isinstance(c["dur"], tuple) and abs(c["dur"] - dl) < 0.001:        # ends at the very instant: either way, but wholly
                if k == "sleep" and not c.get("cancel") and (state, res) != ("completed", f"r{i}") and not (state == "failed" and res.startswith("TimeoutError")): out.append(("tie", what))
                continue
            n = 1
            want, final = [], None
            while True:
                dur = c["dur"] if not isinstance(c["dur"], tuple) else c["dur"][n - 1]
                cut = dur > dl
                fails = cut or k in ("fail", "own", "nested-timeout")
                want.append((min(dur, dl), cut, dur))
                if c.get("cancel") and c["cancel"] < min(dur, dl):
                    want[-1] = (c["cancel"], "cancelled", dur)
                    final = "cancelled"
                    break
                if not fails: final = "completed"; break
                if not c["retry"] or n >= c["retry"][0]: final = "failed"; break
                n += 1
            if len(r) != len(want): out.append((f"attempts-{k}", f"{what}; expected {len(want)} runs")); continue
            for (a, b, x, _), (length, cut, dur) in zip(r, want):
                extra = 0.5 if k == "busy-cleanup" and cut else 0
                if b is None: out.append((f"never-ended-{k}", what)); continue
                if not length - 0.002 <= b - a - extra <= length + TOL + (0.1 if cut == "cancelled" else 0):
                    out.append(("interrupted-early" if b - a - extra < length else "interrupted-late" if cut else "length", f"{what}; a run took {b - a:.3f} s, expected {length:.3f}"))
                if cut is True and k == "swallow" and x: out.append(("swallow", what))
            if state != final: out.append((f"record-{k}-{final}-{state}", f"{what}; expected {final}"))
            else:
                last = want[-1]
                if final == "completed" and res != f"r{i}": out.append((f"result-{k}", f"{what}; expected r{i}"))
                if final == "failed":
                    exp = "ValueError" if k == "fail" and not last[1] or k == "late-fail" else "TimeoutError"
                    if not res.startswith(exp): out.append((f"exception-{k}", f"{what}; expected {exp}"))
                    if k == "own" and not last[1] and res != f"TimeoutError:own{i}": out.append((f"exception-{k}", what))
            for e in evs(env, "left"):
                if e[3] == f"t{i}" and not c["retry"]:
                    t, d = round(e[0] - r[0][0], 3), T
                    for at, by in c["ext"]:
                        if at <= t + 0.001 and at < d: d += by if by is not None else T
                    if abs(e[4] - (d - t)) > 0.01: out.append(("remaining", f"{what}; {t} s into the run remaining() gave {e[4]}"))
        return [x for x in out if not (x[0] in seen or seen.add(x[0]))]

    def counts(self, env): return len(self.cases()), sum(1 for e in env.events if e[2] == "start")


class Shared(World):
    """Several runs of one function at once: each has its own deadline and its own extensions."""
    poll = 0.05
    warm_runs = 1
    workers = 1
    concurrency = 50

    def tasks(self, env):
        async def job(i: int, dur: float, ext: float, timeout: Timeout = Timeout(S(T))):
            async with body(env, f"t{i}"):
                if ext: timeout.extend(S(ext))
                await asyncio.sleep(dur)
        return {"job": job}

    def cases(self): return [(s, d, x) for s in (0.0, 0.3, 0.8) for d in (0.5, 0.95, 1.3, 2.2) for x in (0, 0.5, 1.5)]

    async def main(self, env):
        async with self.client(env) as d:
            for n in range(self.workers): self.start_worker(env, f"w{n}")
            await asyncio.sleep(0.5)
            t0 = utc()
            for i, (s, dur, x) in enumerate(self.cases()): await d.add(d.fns["job"], key=f"k{i}", when=t0 + S(1 + s))(i, dur, x)
            await asyncio.sleep(9)
            return [(await d.get_execution(f"k{i}")).state.value for i in range(len(self.cases()))]

    def check(self, env):
        out = []
        for i, (s, dur, x) in enumerate(self.cases()):
            r = [(a[0], b[0]) for a in starts(env, f"t{i}") for b in finishes(env, f"t{i}") if a[4] == b[4]]
            dl = T + x
            state = "completed" if dur < dl else "failed"
            if len(r) != 1 or env.value[i] != state or abs(r[0][1] - r[0][0] - min(dur, dl)) > TOL:
                out.append(("shared", f"one of several runs at once, of {dur} s, extending its timeout of {T} s by {x}: runs {r}, record {env.value[i]}"))
        return out[:1]

    def counts(self, env): return len(self.cases()), len(self.cases())


class Scales(World):
    """Timeouts from milliseconds to minutes."""
    ttl = 10000.0
    poll = 2.0
    warm_runs = 1
    concurrency = 500
    max_ops = 10 ** 6
    max_time = 1e9
    SCALES = (0.01, 0.04, 0.1, 0.25, 5.0, 90.0, 400.0)

    def cases(self): return [(T, f, k) for T in self.SCALES for f in (0.0, 0.5, 0.9, 0.96, 1.04, 1.5, 3.0) for k in ("sleep", "own", "extend", "spin")]

    def tasks(self, env):
        def make(i, T, f, k):
            async def fn(timeout: Timeout = Timeout(S(T))):
                async with body(env, f"t{i}"):
                    if k == "extend":
                        await asyncio.sleep(T * 0.25)
                        timeout.extend(S(T))
                        await asyncio.sleep(max(0, 2 * T * f - T * 0.25))
                    elif k == "spin":
                        for _ in range(8): await asyncio.sleep(T * f / 8)
                    else: await asyncio.sleep(T * f)
                    if k == "own": raise asyncio.TimeoutError("own")
                    return "done"
            fn.__name__ = fn.__qualname__ = f"t{i}"
            return fn
        return {f"t{i}": make(i, *c) for i, c in enumerate(self.cases())}

    async def main(self, env):
        async with self.client(env) as d:
            self.start_worker(env, "w")
            await asyncio.sleep(0.5)
            for i in range(len(self.cases())): await d.add(d.fns[f"t{i}"], key=f"k{i}")()
            await asyncio.sleep(max(self.SCALES) * 2.5 + 10)
            out = []
            for i in range(len(self.cases())):
                e = await d.get_execution(f"k{i}")
                try: out.append((e.state.value, await e.get_result(timeout=S(0.2))))
                except Exception as x: out.append((e.state.value, f"{type(x).__name__}:{x}"))
            return out

    def check(self, env):
        out = []
        for i, (T, f, k) in enumerate(self.cases()):
            s, e = starts(env, f"t{i}"), finishes(env, f"t{i}")
            what = f"timeout of {T} s, {k} taking {f} of it: ran {[(a[0], b[0], b[5]) for a, b in zip(s, e)]}, {env.value[i]}"
            if len(s) != 1 or len(e) != 1: out.append(("runs", what)); continue
            lim = 2 * T if k == "extend" else T
            dur = max(lim * f, T * 0.25 if k == "extend" else 0)
            took = e[0][0] - s[0][0]
            if not min(dur, lim) - 0.0005 <= took <= min(dur, lim) + 0.02: out.append(("interrupted-early" if took < min(dur, lim) else "late", what))
            state, res = env.value[i]
            want = ("failed", "TimeoutError") if f > 1 else ("failed", "TimeoutError:own") if k == "own" else ("completed", "done")
            if state != want[0] or not res.startswith(want[1]): out.append(("outcome", what + f", expected {want}"))
        seen = set()
        return [x for x in out if not (x[0] in seen or seen.add(x[0]))]

    def counts(self, env): return len(self.cases()), len(starts(env))


def work(tier):
    deep = tier == "thorough"
    out = []
    for where in ("task", "worker"):
        for w in (1, 2) if where == "task" or deep else (1,):
            for i in range(4): out.append((Grid(name=f"grid-{where}-{w}-{i}", where=where, workers=w, part=(i, 4)), Bounds(depth=0)))
    out.append((Scales(name="scales"), Bounds(depth=0)))
    for w in (1, 2): out.append((Shared(name=f"shared-{w}", workers=w), Bounds(depth=0)))
    return out
