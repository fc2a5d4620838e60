"""C33: generated task keys are unique and time-ordered."""
import itertools, uuid
from mc.world import *
from mc import vtime
from mc.explore import Bounds
from docket._uuid7 import uuid7

RULE = ("all sequences of clock movements (still, by 1 ns up to 17 s, back) up to a length from several instants, with a burst of keys at each; a "
        "burst longer than the sequence counter; and the keys of tasks added by several dockets of a process")
MOVES = {"still": 0, "1ns": 1, "60ns": 60, "250ns": 250, "1us": 1000, "1ms": 10 ** 6, "0.9s": 9 * 10 ** 8, "17s": 17 * 10 ** 9, "-1us": -1000, "-2s": -2 * 10 ** 9}


class Seqs(World):
    first = "still"
    length = 4
    burst = 2
    max_ops = 10 ** 7

    async def main(self, env):
        self.bad, self.n = [], 0
        seen = set()
        hi = 0
        try:
            for start in (1767225600 * 10 ** 9, 1767225615 * 10 ** 9 + 999_999_990, 16 * 10 ** 9 * 110451601 - 1):
                for rest in itertools.product(MOVES, repeat=self.length - 1):
                    moves = (self.first,) + rest
                    t = start
                    vtime.set_ns(t, env.ns)
                    last = None
                    self.n += 1
                    for m in ("still",) + moves:
                        t += MOVES[m]
                        vtime.set_ns(t, env.ns)
                        for i in range(self.burst):
                            u = uuid7()
                            if not isinstance(u, uuid.UUID) or u.version != 7 or u.variant != uuid.RFC_4122:
                                self.bad.append(("format", f"{u} is not a version 7 UUID"))
                                return
                            if u in seen:
                                self.bad.append(("repeated", f"{u} was generated twice; movements {moves}"))
                                return
                            seen.add(u)
                            if last is not None and not (i == 0 and MOVES[m] < 0) and u <= last:
                                self.bad.append(("order", f"{u} follows {last} although the clock did not step back ({moves}, at {m})"))
                                return
                            last = u
        finally:
            env.tick(0)

    def check(self, env): return self.bad
    def counts(self, env): return self.n, self.n * self.length


class Burst(World):
    """More keys than the counter holds while the clock stands still; then the clock moves on."""
    max_ops = 10 ** 7

    async def main(self, env):
        self.bad, self.n = [], 0
        t = 1767225600 * 10 ** 9
        seen = set()
        try:
            for rnd in range(3):
                vtime.set_ns(t + rnd * 10 ** 6, env.ns)
                first = None
                last = None
                for i in range(20000):
                    u = uuid7()
                    self.n += 1
                    if u in seen:
                        self.bad.append(("repeated", f"{u} was generated twice in a burst of {i + 1}"))
                        return
                    seen.add(u)
                    if last is not None and i < 16384 and u <= last:
                        self.bad.append(("order", f"number {i + 1} of a burst, {u}, is not above {last}"))
                        return
                    last = u
                    if rnd and i == 0 and u <= top:
                        self.bad.append(("order-after-burst", f"{u} is not above {top} of the earlier instant"))
                        return
                top = max(sorted(seen)[-1], last)
        finally:
            env.tick(0)

    def check(self, env): return self.bad
    def counts(self, env): return self.n, self.n


class Tasks(World):
    """Keys of tasks added without one: through docket, replaced clock readings, two dockets and two concurrent adders each."""
    hold_limit = 1.0

    def tasks(self, env):
        async def f(): pass
        return {"f": f}

    async def adder(self, env, d, n):
        for _ in range(n):
            env.data.keys.append(None)
            i = len(env.data.keys) - 1
            e = await d.add(d.fns["f"], when=utc() + S(100))()
            env.data.keys[i] = e.key

    async def main(self, env):
        env.data.keys = []
        async with self.client(env) as a, self.client(env, name="e") as b:
            env.explore = True
            await asyncio.gather(*(env.spawn(f"c{i}", self.adder(env, d, 3)) for i, d in enumerate((a, b, a, b))))
            env.explore = False
            s = [x.key for d in (a, b) for x in env.instant(d.snapshot()).future]
            return s

    def check(self, env):
        out = []
        ks = env.data.keys
        if None in ks: return [("stuck", f"an add never returned: {ks}")]
        if len(set(ks)) != len(ks): out.append(("repeated", f"keys {ks}"))
        for k in ks:
            try:
                if uuid.UUID(k).version != 7: out.append(("format", f"{k} is not a version 7 UUID"))
            except ValueError: out.append(("format", f"{k} is not a UUID"))
        if sorted(env.value) != sorted(ks): out.append(("lost", f"the tasks scheduled are {env.value}, the keys given {ks}"))
        return out


def work(tier):
    deep = tier == "thorough"
    return [(Seqs(name=f"clock-{m}-{l}", first=m, length=l), Bounds(depth=0)) for l in ((3, 4) if not deep else (3, 4, 5)) for m in MOVES] + \
           [(Burst(name="burst"), Bounds(depth=0)), (Tasks(name="tasks"), Bounds(1 if not deep else 2, m=2, hold=1, late=1))]
