"""C28: progress belongs to the run that reports it."""
import itertools
from docket import Progress, Retry, Perpetual
from docket.execution import Execution
from mc.world import *
from mc.explore import Bounds

RULE = ("all sequences of up to three (thorough: four) progress operations, with retried and perpetual runs, each read back and followed through a subscription; an old and a "
        "new run of one key (replaced while running, cancelled, rescheduled) reporting at once, with all placements of holds and reversals, read after every operation")
OPS = (("T", 5), ("T", 9), ("I", 1), ("I", 7), ("M", "a"), ("M", "b"), ("M", None))
ZERO = (0, 100, None)


def after(s, op):
    c, t, m = s
    k, v = op
    return (c, v, m) if k == "T" else (c + v, t, m) if k == "I" else (c, t, v)


async def perform(p, op):
    k, v = op
    if k == "T": await p.set_total(v)
    elif k == "I": await (p.increment(v) if v != 1 else p.increment())
    else: await p.set_message(v)


def seen(p): return (p.current, p.total, p.message)


class Sequences(World):
    """Many tasks, each with one sequence of operations; every value read back, from within and from without."""
    poll = 0.2
    concurrency = 4
    feature = "plain"
    first = None
    length = 3
    max_ops = 500000

    def seqs(self): return [(self.first,) + s for s in itertools.product(OPS, repeat=self.length - 1)] if self.length > 1 else [(o,) for o in OPS]

    def tasks(self, env):
        async def run(p, n, seq, key):
            model = ZERO
            out = env.data.__dict__.setdefault("steps", {}).setdefault(n, [])
            reader = env.data.reader[n]

            async def look(op):
                await reader.sync()
                out.append((op, model, seen(p), seen(reader.progress)))
            await look("start")
            for op in seq:
                await perform(p, op)
                model = after(model, op)
                await look(op)
            # what isn't progress is refused and changes nothing
            for k, v in (("T", 0), ("I", 0), ("I", -1)):
                try:
                    await perform(p, (k, v))
                    out.append(((k, v), "refused", "accepted", None))
                except ValueError: pass
            await look("refusals")

        async def job(n: int, seq: tuple, p: Progress = Progress()): await run(p, n, seq, f"k{n}")

        async def flaky(n: int, seq: tuple, p: Progress = Progress(), r: Retry = Retry(attempts=2, delay=S(0.3))):
            await run(p, n, seq, f"k{n}")
            if r.attempt == 1: raise ValueError()

        async def chain(n: int, seq: tuple, p: Progress = Progress(), r: Perpetual = Perpetual(every=S(0.3))):
            await run(p, n, seq, f"k{n}")
            if len(env.data.steps[n]) > 2 * (len(seq) + 2) - 1: r.cancel()
            else: r.perpetuate(n, seq)
        return {"job": job, "flaky": flaky, "chain": chain}

    async def watch(self, env, n):
        async with self.client(env) as d:
            e = Execution(d, d.fns["job"], (), {}, f"k{n}", utc(), 1)
            out = env.data.heard.setdefault(n, [])
            k = 0
            async for x in e.subscribe():
                k += 1
                if k > 2 and x["type"] == "progress": out.append((x["current"], x["total"], x["message"], x["key"]))

    async def main(self, env):
        fn = {"plain": "job", "retry": "flaky", "perp": "chain"}[self.feature]
        env.data.reader, env.data.heard = {}, {}
        async with self.client(env) as d:
            self.start_worker(env, "w")
            await asyncio.sleep(0.3)
            seqs = self.seqs()
            for n, s in enumerate(seqs):
                env.spawn(f"watch{n}", self.watch(env, n))
            await asyncio.sleep(0.3)
            for n, s in enumerate(seqs):
                env.data.reader[n] = await d.add(d.fns[fn], key=f"k{n}", when=utc() + S(0.3))(n, s)
            await asyncio.sleep(3 + 0.2 * len(seqs))
            env.data.left = {}
            for n in range(len(seqs)):
                e = await d.get_execution(f"k{n}")
                env.data.left[n] = seen(e.progress) if e else None
            return True

    def check(self, env):
        out = []
        runs = 1 if self.feature == "plain" else 2
        for n, s in enumerate(self.seqs()):
            steps = env.data.steps.get(n, [])
            name = f"sequence {s} of a {self.feature} task"
            if len(steps) != runs * (len(s) + 2): out.append(("steps", f"{name}: {len(steps)} steps: {steps}"))
            for op, model, own, other in steps:
                if model == "refused": out.append(("accepted", f"{name}: {op} is accepted")); continue
                if own != model: out.append(("own-view", f"{name}: after {op} the task sees {own}, expected {model}"))
                if other != model: out.append(("read", f"{name}: after {op} an observer reads {other}, expected {model}"))
            want = []
            for r in range(runs):
                m = ZERO
                for op in s:
                    m = after(m, op)
                    want.append((*m, f"k{n}"))
            if env.data.heard.get(n) != want: out.append(("announced", f"{name}: announced {env.data.heard.get(n)}, expected {want}"))
            if env.data.left.get(n) not in (None, (None, 100, None)): out.append(("left", f"{name}: afterwards an observer reads {env.data.left.get(n)}"))
        return out

    def covered(self, env): return {str(s) for s in self.seqs()}


class TwoRuns(World):
    """An older and a newer run of one key."""
    poll = 0.3
    hold_limit = 0.6
    redelivery = 6.0
    workers = 2
    how = "replace"
    shape = ("old", "new")      # which of them reports what
    concurrency = 2
    victims = ()
    old = (("T", 50), ("I", 10), ("M", "old"), ("I", 10), ("T", 60), ("M", None), ("I", 10))
    new = (("I", 1), ("T", 7), ("M", "new"), ("I", 1), ("M", "newer"))
    pause_old = 0.25
    pause_new = 0.2

    def allow_crash(self, op, env): return op.proc in self.victims

    def tasks(self, env):
        async def go(p, tag, ops, pause):
            async with body(env, "k", tag) as b:
                for op in ops:
                    await asyncio.sleep(pause)
                    env.ev("op", b.n, op)
                    await perform(p, op)
                    env.ev("did", b.n, op)
                await asyncio.sleep(pause)

        async def old(tag: str, p: Progress = Progress()): await go(p, tag, self.old, self.pause_old)

        async def new(tag: str, p: Progress = Progress()): await go(p, tag, self.new, self.pause_new)

        async def retried(tag: str, p: Progress = Progress(), r: Retry = Retry(attempts=2, delay=S(0.4))):
            if r.attempt == 1:
                await go(p, "old", self.old[:3], 0.1)
                raise ValueError()
            await go(p, "new", self.new, self.pause_new)

        async def stubborn(tag: str, p: Progress = Progress()):
            # goes on reporting after it was cancelled
            try: await go(p, tag, self.old[:3], self.pause_old)
            except asyncio.CancelledError:
                for op in self.old:
                    await asyncio.sleep(0.2)
                    await perform(p, op)
                raise

        async def par(tag: str, p: Progress = Progress()):
            # reports at once
            async with body(env, "k", tag) as b:
                await asyncio.sleep(0.1)
                env.ev("op", b.n, ("I", 5))
                await asyncio.gather(p.increment(1), p.increment(1), p.increment(1), p.increment(2))
                env.ev("did", b.n, ("I", 5))
                await asyncio.sleep(1.0)
        return {"old": old, "new": new, "retried": retried, "stubborn": stubborn, "par": par}

    async def main(self, env):
        env.data.reads, env.data.heard = [], []
        async with self.client(env) as d:
            e = Execution(d, d.fns["old"], (), {}, "k", utc(), 1)
            for n in range(self.workers): self.start_worker(env, f"w{n + 1}")
            env.spawn("watch", self.watch(env))
            await asyncio.sleep(0.4)
            env.explore = True

            def hook(op):
                if any(w for _, _, w in op.acc):
                    env.instant(e.sync())
                    x = (env.t(), e.state and e.state.value, seen(e.progress))
                    if not env.data.reads or env.data.reads[-1][1:] != x[1:]:
                        env.data.reads.append(x)
                        env.ev("read", *x[1:])
            env.step_hooks.append(hook)
            if self.how == "replace":
                await d.add(d.fns["old"], key="k")("old")
                await asyncio.sleep(0.7)
                await d.replace(d.fns["new"], utc(), key="k")("new")
            elif self.how == "replace-late":
                await d.add(d.fns["old"], key="k")("old")
                await asyncio.sleep(0.7)
                await d.replace(d.fns["new"], utc() + S(0.6), key="k")("new")
            elif self.how == "retry": await d.add(d.fns["retried"], key="k")("x")
            elif self.how == "parallel": await d.add(d.fns["par"], key="k")("new")
            elif self.how == "cancel":
                await d.add(d.fns["stubborn"], key="k")("old")
                await asyncio.sleep(0.6)
                await d.cancel("k")
                await asyncio.sleep(0.3)
                await d.add(d.fns["new"], key="k")("new")
            elif self.how == "new":
                await d.add(d.fns["new"], key="k")("new")
            await asyncio.sleep(2.2)
            env.explore = False
            await asyncio.sleep(4 if not self.victims else 12)
            x = await d.get_execution("k")
            self.final = seen(x.progress) if x else None
            self.keys = [k for k in keyspace(env) if b"progress" in (k if isinstance(k, bytes) else k.encode())]
            return True

    async def watch(self, env):
        async with self.client(env) as d:
            e = Execution(d, d.fns["old"], (), {}, "k", utc(), 1)
            k = 0
            async for x in e.subscribe():
                k += 1
                if k > 2:
                    env.ev("heard", x["type"], (x["current"], x["total"], x["message"]) if x["type"] == "progress" else x["state"].value)

    def check(self, env):
        out = []
        line = [(round(e[0], 3), *e[2:]) for e in env.events if e[2] in ("start", "finish", "op", "did", "read", "heard", "crash")]
        runs, newest = {}, None         # n -> [states it may show]
        allstates = {}
        for e in env.events:
            what = e[2]
            if what == "start":
                runs[e[4]] = {ZERO}
                allstates[e[4]] = [ZERO]
                newest = e[4]
            elif what == "op" and e[3] in runs:
                nxt = set()
                if self.how == "parallel" and e[4] == ("I", 5): nxt = {(i, 100, None) for i in range(6)}
                runs[e[3]] = set(runs[e[3]]) | {after(x, e[4]) for x in runs[e[3]]} | nxt
                allstates[e[3]] += list(runs[e[3]])
            elif what == "did" and e[3] in runs:
                # exactly the state after the operation
                done = [x for x in env.events[:env.events.index(e) + 1] if x[2] == "did" and x[3] == e[3]]
                s = ZERO
                for x in done: s = after(s, x[4])
                runs[e[3]] = {s}
            elif what == "finish" and e[4] in runs:
                runs[e[4]] = None
            elif what == "read":
                state, got = e[3], e[4]
                if state == "running" and newest is not None and runs.get(newest) is not None:
                    ok = set(runs[newest])
                    later = [x for x in starts(env) if x[4] > newest]
                    if later: ok.add(ZERO)          # claimed, not begun
                    if got not in ok: out.append(("foreign", f"{self.how}: an observer reads {got} while the newest run has reported {sorted(ok, key=repr)}: {line}"))
            elif what == "heard" and e[3] == "progress":
                got = e[4]
                if newest is not None and newest in allstates:
                    mine = set(allstates[newest])
                    others = {s for n, ss in allstates.items() if n != newest for s in ss}
                    ended = runs.get(newest) is None
                    if got not in mine and (got not in others or env.events.index(e) > self.settled(env, newest)):
                        out.append(("announced", f"{self.how}: {got} is announced, the newest run has reported {sorted(mine, key=repr)}: {line}"))
        nums = []           # a redelivered run starts anew
        for e in env.events:
            if e[2] == "start": nums.append([])
            elif e[2] == "heard" and e[3] == "progress" and e[4][2] in ("new", "newer") and nums: nums[-1].append(e[4][0])
        if any(x != sorted(x) for x in nums): out.append(("order", f"{self.how}: announced out of order: {line}"))
        if self.how == "parallel":
            nums = [e[4][0] for e in evs(env, "heard") if e[3] == "progress"]
            if nums != sorted(nums) or (nums and nums[-1] != 5): out.append(("order", f"{self.how}: reports at once are announced as {nums}"))
        if self.final not in (None, (None, 100, None)): out.append(("left", f"{self.how}: after everything has ended an observer reads {self.final}: {line}"))
        if self.keys: out.append(("left-keys", f"{self.how}: progress data is left: {self.keys}: {line}"))
        if self.how in ("replace", "replace-late", "retry", "cancel") and not any(e[5] == "new" for e in starts(env)): out.append(("not-run", f"{line}"))
        return out

    def settled(self, env, n):
        """The index of the first event by which run n's first report has been made."""
        for i, e in enumerate(env.events):
            if e[2] == "did" and e[3] == n: return i
        return 1 << 30

    def covered(self, env): return {self.how}


def work(tier):
    deep = tier == "thorough"
    out = []
    for f in ("plain", "retry", "perp"):
        out.append((Sequences(name=f"seq1-{f}", feature=f, length=1), Bounds(0)))
        for o in OPS:
            out.append((Sequences(name=f"seq3-{f}-{o[0]}{o[1]}", feature=f, length=3 if not deep else 4, first=o), Bounds(0)))
    for how in ("replace", "replace-late", "retry", "cancel", "parallel", "new"):
        for w in (1, 2):
            out.append((TwoRuns(name=f"{how}-{w}", how=how, workers=w), Bounds(1 if not deep else 2, m=2, hold=2)))
    out.append((TwoRuns(name="death", how="new", victims=("w1", "w2")), Bounds(1, crash=1)))
    return out
