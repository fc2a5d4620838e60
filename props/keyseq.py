"""Every sequence of API calls on a key, up to a length, against a reference model of a key's life.

One run drives many keys of one docket in step (one key per sequence); the steps are 'o' (each key performs its next call), 'W' (a worker is
started, works for `span` seconds and is stopped), 'T' (time passes without a worker), 'X' (the docket is cleared); with always=True a worker
runs throughout and the calls of a key are `step` seconds apart.  Calls: A/L add now/later, R/F replace now/later, C cancel, '.' none.
"""
import itertools, re
from docket import Retry
from mc.world import *
from mc.explore import Bounds

LAT = 0.09              # a worker starts a due task within this time
DUR = 0.55
LATER = 0.6
RETRY = 0.6
OUTCOMES = {"job": ["ok"], "fails": ["fail"], "flaky": ["retry", "ok"]}


class Model:
    """What the calls on one key should lead to."""

    def __init__(self, fn):
        self.fn, self.cur, self.old, self.runs, self.expect = fn, None, [], [], []
        self.state = None               # the set of recorded states allowed now (None: never existed)
        self.fuzzy = False
        self.won = None                 # since when a worker has been on
        self.final = 0                  # when the recorded final state was reached, at the earliest

    def advance(self, t, exact=True):
        """Move to time t; a transition whose window contains t makes the key's expectations undecided."""
        while True:
            nxt = []
            for r in self.old + ([self.cur] if self.cur and self.cur["st"] == "running" else []):
                if r["hi"] is not None: nxt.append((r["lo"] + DUR, r["hi"] + DUR, "end", r))
            c = self.cur
            if c and c["st"] == "pending" and self.won is not None:
                nxt.append((max(c["lo"], self.won), max(c["hi"], self.won) + LAT, "start", c))
            nxt = [n for n in nxt if n[0] <= t]
            if not nxt: return
            lo, hi, what, r = min(nxt, key=lambda n: n[1])
            if hi >= t:
                self.fuzzy = True
                return
            if what == "start":
                r.update(st="running", lo=lo, hi=hi)
                self.runs.append({"tag": r["tag"], "lo": lo, "hi": hi, "end": None, "n": r["n"]})
                r["run"] = self.runs[-1]
                self.state = {"running"}
            else:
                o = OUTCOMES[self.fn][r["n"] - 1]
                if r["run"]["end"] is None: r["run"]["end"] = {"ok": None, "fail": "ValueError", "retry": "ValueError"}[o]
                if r is not self.cur: self.old.remove(r)
                elif o == "retry":
                    self.cur = {"tag": r["tag"], "lo": lo + RETRY, "hi": hi + RETRY, "st": "pending", "n": r["n"] + 1}
                    self.state = {"scheduled", "queued"}
                else:
                    self.cur = None
                    self.state = {"completed"} if o == "ok" else {"failed"}
                    self.final = lo
                    self.last = (r["tag"], o)

    last = None

    def call(self, op, t, tag):
        if self.fuzzy: return None
        self.advance(t)
        c = self.cur
        if op in "AL":
            if c: return "ALREADY_SCHEDULED"
        if op in "RF" and c and c["st"] == "running": self.old.append(c)
        if op in "ALRF":
            due = t + (LATER if op in "LF" else 0)
            self.cur = {"tag": tag, "lo": due, "hi": due, "st": "pending", "n": 1}
            self.state = {"scheduled"} if op in "LF" else {"queued"}
            return "SCHEDULED"
        if op == "C":
            for r in self.old: r["run"]["end"] = "any"          # the signal may reach the superseded run as well
            if c:
                if c["st"] == "running": c["run"]["end"] = "CancelledError"
                self.cur = None
                self.state = {"cancelled"}
                self.final = t
                self.last = None
        return None

    def clear(self, t):
        self.advance(t)
        if self.cur and self.cur["st"] == "pending":
            self.cur = None
            self.state = "any"
            self.last = None
            return 1
        return 0


class KeySeq(World):
    poll = 0.05
    redelivery = 60.0
    concurrency = 5000
    always = False
    step = 0.5
    span = 3.2
    gap = 0.9
    fn = "job"
    letters = "ALRFC"
    skeleton = "oooW"
    chunk = (0, 1)              # (i, n): every n-th sequence starting from the i-th
    props = ()
    ttl = 900.0
    workers = 1
    max_ops = 500000
    max_time = 1e6

    def sequences(self):
        n = self.skeleton.count("o")
        return list(itertools.islice(itertools.product(self.letters, repeat=n), self.chunk[0], None, self.chunk[1]))

    def tasks(self, env):
        async def job(key: str, tag: str):
            async with body(env, key, tag): await asyncio.sleep(DUR)
            return tag

        async def fails(key: str, tag: str):
            async with body(env, key, tag):
                await asyncio.sleep(DUR)
                raise ValueError(tag)

        async def flaky(key: str, tag: str, retry: Retry = Retry(attempts=2, delay=S(RETRY))):
            async with body(env, key, tag):
                await asyncio.sleep(DUR)
                if retry.attempt < 2: raise ValueError(tag)
            return tag
        return {"job": job, "fails": fails, "flaky": flaky}

    async def main(self, env):
        self.bad = bad = []
        async with self.client(env) as d:
            seqs = {f"k{i}": s for i, s in enumerate(self.sequences())}
            models = self.models = {k: Model(self.fn) for k in seqs}
            self.seqs = seqs
            done = ""
            ws = []
            if self.always:
                for n in range(self.workers): ws.append(await self.begin(d, f"w{n}"))
                await asyncio.sleep(1)
                for m in models.values(): m.won = env.t()
            n = 0
            ncalls = 0
            for st in self.skeleton:
                done += st
                t0 = env.t()
                if st == "o":
                    for k, s in seqs.items():
                        op, tag, m = s[n], f"{k}/{n}", models[k]
                        ncalls += 1
                        t = env.t()
                        want = m.call(op, t, tag)
                        got = await self.perform(env, d, op, k, tag)
                        if not m.fuzzy and want != got:
                            p = "C22" if "X" in done else "C05" if op in "RF" else "C04"
                            bad.append((p, f"{op}-{got}", f"{self.say(k, done)}: {op} reported {got}, expected {want}"))
                            m.fuzzy = True
                    n += 1
                    if self.always: await asyncio.sleep(t0 + self.step - env.t())
                elif st == "W":
                    for m in models.values(): m.won = env.t()
                    w = await self.begin(d, "w")
                    await asyncio.sleep(self.span)
                    for m in models.values(): m.advance(env.t())
                    await self.end(w)
                    for m in models.values(): m.won = None
                elif st == "T": await asyncio.sleep(self.gap)
                elif st == "X":
                    e = sum(m.clear(env.t()) for m in models.values())
                    fz = any(m.fuzzy for m in models.values())
                    r = await d.clear()
                    if r != e and not fz: bad.append(("C22", "count", f"steps {done!r} of {len(seqs)} keys: clear() returned {r}, but {e} tasks were waiting"))
                self.observe(env, d, done)
            if self.always:
                await asyncio.sleep(3)
                for w in ws: await self.end(w)
            for m in models.values(): m.advance(env.t())
            self.observe(env, d, done)
            await self.outcome(env, d, done)
            self.n = (len(seqs) * len(self.skeleton), ncalls)
            env.data.ncalls = ncalls
            if self.idle:
                await asyncio.sleep(self.ttl + 1)
                left = sorted(k.decode() for k in keyspace(env) if self.mine(k))
                if left: bad.append(("C21", "left-behind", f"steps {done!r}: {len(left)} keys remain after the retention, e.g. {left[:4]}"))
            for k, m in models.items():
                if m.fuzzy: env.data.__dict__["fuzzy"] = env.data.__dict__.get("fuzzy", 0) + 1
            return True

    idle = True

    def mine(self, k): return b"/" in k or b":k" in k.replace(b"known", b"") or k == b"d:queue"

    async def begin(self, d, name):
        w = self.worker(d, name)
        await w.__aenter__()
        return w, asyncio.get_running_loop().create_task(w.run_forever())

    async def end(self, wt):
        w, t = wt
        t.cancel()
        await asyncio.gather(t, return_exceptions=True)
        await w.__aexit__(None, None, None)

    async def perform(self, env, d, op, k, tag):
        if op == "C": return await d.cancel(k)
        if op == ".": return None
        when = utc() + S(LATER) if op in "LF" else utc()
        f = d.fns[self.fn]
        e = await (d.add(f, key=k, when=when) if op in "AL" else d.replace(f, key=k, when=when))(k, tag)
        return e.disposition.name

    def say(self, k, done): return f"calls {''.join(self.seqs[k])!r} of {self.fn}() at steps {done!r} (always={self.always})"

    def observe(self, env, d, done):
        """After each step: records and the snapshot against the models."""
        snap = env.instant(d.snapshot())
        fut, run = {}, {}
        for x in snap.future: fut.setdefault(x.key, []).append(x)
        for x in snap.running: run.setdefault(x.key, []).append(x)
        for k, m in self.models.items():
            if m.fuzzy: continue
            m.advance(env.t())
            if m.fuzzy: continue
            e = env.instant(d.get_execution(k))
            s = e.state.value if e is not None else None
            if not m.cur and s is None and m.state is not None and env.t() > m.final + self.ttl - 0.2: pass
            elif m.state != "any" and not (s is None and m.state is None) and (m.state is None or s not in m.state):
                pend = m.cur and m.cur["st"] == "pending"
                if not (pend and s in ("scheduled", "queued") and m.cur["lo"] <= env.t()):
                    self.bad.append((self.about(self.seqs[k]) - {"C04"} | {"C19"}, f"record-{s}-for-{'-'.join(sorted(m.state or ['none']))}", f"{self.say(k, done)}: the record reads {s}, expected {m.state}"))
            f, r = fut.get(k, []), run.get(k, [])
            if m.old: continue
            want = "future" if m.cur and m.cur["st"] == "pending" else "running" if m.cur else None
            got = ["future"] * len(f) + ["running"] * len(r)
            if got != ([want] if want else []):
                self.bad.append(("C23", f"listed-{'-'.join(got) or 'none'}-for-{want}", f"{self.say(k, done)}: the snapshot lists the task as {got}, expected {want}"))
            elif want:
                x = (f + r)[0]
                if x.args != (k, m.cur["tag"]) or x.function.__name__ != self.fn:
                    self.bad.append(("C23", "wrong-task", f"{self.say(k, done)}: the snapshot shows {x.function.__name__}{x.args} for {m.cur['tag']!r}"))
                elif abs(x.when.timestamp() - (sim.BASE / 1e9 + m.cur["lo"])) > LAT + 0.01 and m.cur["n"] == 1 and m.cur["st"] == "pending":
                    self.bad.append(("C23", "wrong-time", f"{self.say(k, done)}: the snapshot shows the time {x.when}"))
        if snap.total_tasks != len(snap.future) + len(snap.running):
            self.bad.append(("C23", "total", f"steps {done!r}: total_tasks {snap.total_tasks} != {len(snap.future)} + {len(snap.running)}"))

    async def outcome(self, env, d, done):
        got = {}
        for e in env.events:
            if e[2] == "start": got.setdefault(e[3], []).append({"tag": e[5], "start": e[0], "n": e[4], "end": "none"})
            elif e[2] == "finish":
                for r in got[e[3]]:
                    if r["n"] == e[4]: r["end"] = e[5]
        for k, m in self.models.items():
            if m.fuzzy: continue
            g = got.get(k, [])
            calls = self.seqs[k]
            p = self.about(calls)
            if [r["tag"] for r in g] != [r["tag"] for r in m.runs]:
                over = len(g) > len(m.runs)
                self.bad.append((p, "runs-more" if over else "runs-differ", f"{self.say(k, done)}: ran {[r['tag'] for r in g]}, expected {[r['tag'] for r in m.runs]}"))
                continue
            for a, b in zip(g, m.runs):
                if not b["lo"] - 0.001 <= a["start"] <= b["hi"] + 0.001:
                    self.bad.append((p | {"C29"} | ({"C10"} if b["n"] > 1 else set()), "start-time", f"{self.say(k, done)}: {a['tag']} (attempt {b['n']}) started at {a['start']}, expected between {b['lo']} and {b['hi']}"))
                if b["end"] != "any" and a["end"] != b["end"]:
                    self.bad.append((p | {"C07", "C10"} if "C" in calls else p | {"C10"}, "end", f"{self.say(k, done)}: the run {a['tag']} ended with {a['end']}, expected {b['end']}"))
            if m.last and m.state in ({"completed"}, {"failed"}) and self.ttl:
                e = await d.get_execution(k)
                if e is None: continue
                try: r = ("ok", await e.get_result(timeout=S(0.5)))
                except Exception as x: r = ("fail", str(x))
                if r[1] != m.last[0] or r[0] != m.last[1]:
                    self.bad.append((p | {"C20"}, "result", f"{self.say(k, done)}: the result reads {r}, expected {m.last}"))
            elif m.state == {"cancelled"} and self.ttl:
                e = await d.get_execution(k)
                if e is None: continue
                try: r = repr(await e.get_result(timeout=S(0.5)))
                except Exception as x: r = type(x).__name__
                if r != "ExecutionCancelled": self.bad.append(({"C20", "C06"}, "cancelled-result", f"{self.say(k, done)}: get_result() of the cancelled task gave {r}"))

    def about(self, calls):
        """The properties a wrong run of this sequence bears on."""
        p = {"C04"}
        if "C" in calls: p |= {"C06", "C07"}
        if set(calls) & set("RF"): p.add("C05")
        if "X" in self.skeleton: p.add("C22")
        if self.fn == "flaky": p.add("C10")
        if not set(calls) - set("AL."): p.add("C02")
        return p

    def check(self, env):
        seen, out = set(), []
        for p, key, text in self.bad:
            if ({p} if isinstance(p, str) else p) & set(self.props) and key not in seen:
                seen.add(key)
                out.append((key, text))
        return out

    def counts(self, env): return len(self.seqs) * len(self.skeleton), 0

    def covered(self, env):
        return {f"{sum(not m.fuzzy for m in self.models.values())} of {len(self.models)} sequences decided in {self.name}"}


def family(props, tier, only=None):
    """(scenario, bounds) list: the sequence families; `props` selects whose violations are reported."""
    out = []
    deep = tier == "thorough"

    def fam(name, skeleton, letters="ALRFC", per=150, **kw):
        if only and not re.search(only, name): return
        n = len(letters) ** skeleton.count("o")
        c = max(1, n // per)
        for i in range(c):
            out.append((KeySeq(name=f"seq-{name}-{skeleton}-{i}", skeleton=skeleton, letters=letters, chunk=(i, c), props=props, **kw), Bounds(depth=0)))
    for s in ("ooooW", "oToooW", "ooWooW", "oTooTW", "oWoToW"): fam("idle", s)
    if "C22" in props:
        for s in ("ooXooW", "oXoXoW", "ooTXoW", "oWoXoW"): fam("clear", s)
        for s in ("oXoo", "ooXo"): fam("clear-live", s, always=True)
    for f in ("job", "flaky") if not deep else ("job", "flaky", "fails"):
        fam("live-" + f, "oooo", "ALRFC.", always=True, fn=f)
        fam("live2-" + f, "ooo", "ALRFC.", always=True, fn=f, workers=2)
    fam("idle-flaky", "oooW", fn="flaky")
    fam("live-fails", "ooo", "ALRFC.", always=True, fn="fails")
    fam("shortttl", "ooTTW", ttl=1.0)
    fam("shortttl", "oWoTTW", ttl=1.0)
    fam("shortttl-live", "ooo", "ALRFC.", always=True, ttl=1.0)
    fam("shortttl-live-flaky", "ooo", "ALRFC.", always=True, fn="flaky", ttl=1.0)
    fam("nottl", "oooW", ttl=0)
    fam("nottl-live", "ooo", "ALRFC.", always=True, ttl=0)
    if deep:
        for s in ("oooooW", "ooTooToW", "ooWoToW", "ooWoooW"): fam("deep", s)
        fam("deep-live", "ooooo", "ALRFC.", always=True)
        fam("deep-live-flaky", "ooooo", "ALRFC.", always=True, fn="flaky")
    return out
