"""C13: cron tasks run only at, and at every, matching instant."""
import itertools
from datetime import datetime, timedelta, timezone
from zoneinfo import ZoneInfo
from docket import Cron
from mc.world import *
from mc.explore import Bounds

RULE = ("a family of cron expressions (steps, ranges, lists, names, seconds, both day fields, keywords) in several time zones, declared, seeded, "
        "run late and rescheduled at every instant of a grid around midnights, month ends and clock changes, under a real worker and by the "
        "dependency alone, against an independent definition of matching instants")

KEYWORDS = {"@hourly": "0 * * * *", "@daily": "0 0 * * *", "@midnight": "0 0 * * *", "@weekly": "0 0 * * 0", "@monthly": "0 0 1 * *",
            "@yearly": "0 0 1 1 *", "@annually": "0 0 1 1 *"}
NAMES = {n: i for i, n in enumerate("JAN FEB MAR APR MAY JUN JUL AUG SEP OCT NOV DEC".split(), 1)} | {
    n: i for i, n in enumerate("SUN MON TUE WED THU FRI SAT".split())}


def field(text, lo, hi):
    out = set()
    num = lambda x: NAMES[x] if x in NAMES else int(x)
    for part in text.upper().split(","):
        rng, _, step = part.partition("/")
        step = int(step or 1)
        if rng == "*": a, b = lo, hi
        elif "-" in rng: a, b = map(num, rng.split("-"))
        else:
            a = num(rng)
            b = hi if "/" in part else a
        out |= set(range(a, b + 1, step))
    return out


class Rule:
    """When an expression matches, by definition: local wall clock fields; a task at fixed local times runs once on a day with a clock change,
    moved behind a gap, at the first of two."""

    def __init__(self, expr, tz):
        parts = KEYWORDS.get(expr, expr).split()
        self.fixed = len(parts) == 5 and not parts[0].startswith("*") and not parts[1].startswith("*") and tz is not timezone.utc
        if len(parts) == 5: parts = ["0"] + parts
        self.sec, self.min, self.hour = field(parts[0], 0, 59), field(parts[1], 0, 59), field(parts[2], 0, 23)
        self.dom, self.mon = field(parts[3], 1, 31), field(parts[4], 1, 12)
        self.dow = {d % 7 for d in field(parts[5], 0, 7)}
        self.both = parts[3].startswith("*") or parts[5].startswith("*")
        self.tz = tz

    def day(self, d):
        m, w = d.day in self.dom, d.isoweekday() % 7 in self.dow
        return d.month in self.mon and ((m and w) if self.both else (m or w))

    def instants(self, start, end):
        """All matching instants in (start, end], in order."""
        out = set()
        d = (start.astimezone(self.tz) - timedelta(days=2)).date()
        last = (end.astimezone(self.tz) + timedelta(days=2)).date()
        while d <= last:
            if self.day(d):
                for h, m, s in itertools.product(sorted(self.hour), sorted(self.min), sorted(self.sec)):
                    for fold in (0, 1):
                        x = datetime(d.year, d.month, d.day, h, m, s, tzinfo=self.tz, fold=fold)
                        u = x.astimezone(timezone.utc)
                        real = u.astimezone(self.tz).replace(tzinfo=None) == x.replace(tzinfo=None)
                        if self.fixed:
                            if fold: continue
                            while not real:
                                x += timedelta(minutes=1)
                                u = x.astimezone(timezone.utc)
                                real = u.astimezone(self.tz).replace(tzinfo=None) == x.replace(tzinfo=None)
                        if real: out.add(u)
            d += timedelta(days=1)
        return sorted(u for u in out if start < u <= end)


EXPRS = ["*/10 * * * *", "0 * * * *", "30 * * * *", "5,35 * * * *", "15 1 * * *", "45 1 * * *", "30 2 * * *", "0 3 * * *", "20 */2 * * *", "0-20/10 0-3 * * *",
         "0 0 * * *", "10 0 1 * *", "10 0 * * MON", "10 0 13 * 1", "10 2 * * sun", "10 0 */2 * *", "0 0 28-31 * *", "25 0 * JAN,MAR,NOV *", "0 6 1-7 * 5",
         "@hourly", "@daily", "@weekly", "@monthly", "@yearly", "0 0 29 2 *", "*/7 1,2 * * *", "59 23 * * *", "0 12 * * 7"]
ZONES = {"UTC": timezone.utc, "NY": ZoneInfo("America/New_York"), "Berlin": ZoneInfo("Europe/Berlin"), "Tokyo": ZoneInfo("Asia/Tokyo"),
         "Kolkata": ZoneInfo("Asia/Kolkata"), "London": ZoneInfo("Europe/London")}
MOMENTS = {"newyear": datetime(2026, 1, 31, 23, 10, 30, tzinfo=timezone.utc), "ny-spring": datetime(2026, 3, 8, 5, 50, 30, tzinfo=timezone.utc),
           "ny-fall": datetime(2026, 11, 1, 4, 50, 30, tzinfo=timezone.utc), "berlin-spring": datetime(2026, 3, 28, 23, 50, 30, tzinfo=timezone.utc),
           "berlin-fall": datetime(2026, 10, 24, 23, 20, 30, tzinfo=timezone.utc)}
FMT = "%a %d %b %H:%M:%S"


class Cases(World):
    poll = 10.0
    redelivery = 3600.0
    concurrency = 1000
    heartbeat = 600.0
    max_ops = 10 ** 7
    max_time = 1e10
    auto = True
    warm_runs = 1

    def check(self, env):
        seen, out = set(), []
        for k, t in self.bad:
            if k not in seen: seen.add(k); out.append((k, t))
        return out

    def counts(self, env): return self.n, self.n

    async def until(self, env, when): await asyncio.sleep(max(0.0, (when - utc()).total_seconds()))


class Real(Cases):
    """Automatic cron tasks under a worker for some hours from each moment, declared `early` seconds before the worker starts; `down`: the worker is
    stopped for a while in between; `secs`: how long the runs take."""
    zone = "UTC"
    moment = "newyear"
    early = 0
    hours = 4.0
    down = None
    secs = 0.0
    exprs = EXPRS

    def tasks(self, env):
        def make(i, expr):
            secs = self.secs

            async def fn(cron: Cron = Cron(expr, tz=ZONES[self.zone])):
                x = await self.d.get_execution(f"c{i}")
                env.ev("run", i, x.when.timestamp() if x is not None else None)
                if secs: await asyncio.sleep(secs)
                if i % 3 == 2: raise ValueError()
            fn.__name__ = fn.__qualname__ = f"c{i}"
            return fn
        return {f"c{i}": make(i, x) for i, x in enumerate(self.exprs)}

    async def main(self, env):
        self.bad, self.n = [], 0
        begin = MOMENTS[self.moment]
        await self.until(env, begin - S(self.early))
        spans = []
        async with self.client(env) as d:
            self.d = d
            await self.until(env, begin)
            for a, b in ([(0, self.hours)] if not self.down else [(0, self.down[0]), (self.down[1], self.hours)]):
                await self.until(env, begin + S(a * 3600))
                w = self.start_worker(env, f"w{a}")
                t0 = utc()
                await self.until(env, begin + S(b * 3600))
                spans.append((t0, utc()))
                w.cancel()
                await asyncio.gather(w, return_exceptions=True)
        runs = {}
        for e in evs(env, "run"): runs.setdefault(e[3], []).append((datetime.fromtimestamp(sim.BASE / 1e9 + e[0], timezone.utc), e[4]))
        for i, expr in enumerate(self.exprs):
            rule = Rule(expr, ZONES[self.zone])
            due = rule.instants(spans[0][0] + S(1), spans[-1][1])
            got = runs.get(i, [])
            what = f"{expr!r} in {self.zone} from {begin.strftime(FMT)} UTC (declared {self.early} s before, worker {[(a.strftime(FMT), b.strftime(FMT)) for a, b in spans]}, runs of {self.secs} s)"
            expected = []
            for x in due:
                if any(a <= x and x + S(2 * self.poll + 2) < b for a, b in spans): expected.append(x)
            times = [t.strftime(FMT) for t, _ in got]
            if self.secs == 0 and not self.down:
                want = [x for x in due if x + S(2 * self.poll + 2) < spans[-1][1]]
                if len(got) < len(want) or len(got) > len(due): self.bad.append(("runs", f"{what}: ran at {times}, the instants are {[x.strftime(FMT) for x in due]}"))
                for (t, w), x in zip(got, due):
                    self.n += 1
                    if not x <= t <= x + S(2 * self.poll + 1): self.bad.append(("instant", f"{what}: ran at {times}, the instants are {[x.strftime(FMT) for x in due]}"))
            last = None
            everything = set(rule.instants(spans[0][0] - S(self.early) - S(86400), spans[-1][1] + S(86400)))
            for t, w in got:
                self.n += 1
                if w is None: continue
                w = datetime.fromtimestamp(round(w, 3), timezone.utc)
                if w not in everything: self.bad.append(("not-matching", f"{what}: a run was scheduled for {w.strftime(FMT)}"))
                if last and w <= last: self.bad.append(("not-later", f"{what}: a run scheduled for {w.strftime(FMT)} followed the one for {last.strftime(FMT)}"))
                if t < w: self.bad.append(("early", f"{what}: a run scheduled for {w} began at {t}"))
                if w < spans[0][0] - S(1): self.bad.append(("past", f"{what}: a run was scheduled for {w.strftime(FMT)}, before the worker started"))
                last = w
            if self.down and got:       # a late run must be followed by the first instant after it
                for (t, w), (t2, w2) in zip(got, got[1:]):
                    nxt = [x for x in due if x > t]
                    if w2 is not None and nxt and abs(w2 - nxt[0].timestamp()) > 1:
                        self.bad.append(("after-late", f"{what}: the run at {t.strftime(FMT)} was followed by one for {datetime.fromtimestamp(w2, timezone.utc).strftime(FMT)}, expected {nxt[0].strftime(FMT)}"))
            if not got and expected and not self.down: self.bad.append(("never", f"{what}: never ran"))
        return True


class Alone(Cases):
    """The dependency's own times: declared at each moment of a grid, asked `late` seconds afterwards, the following times asked in a row."""
    zone = "UTC"
    warm_runs = 0

    async def main(self, env):
        self.bad, self.n = [], 0
        tz = ZONES[self.zone]
        for m in sorted(MOMENTS.values()):
            for k in range(16):
                begin = m + S(k * 977)
                await self.until(env, begin)
                crons = [(x, Cron(x, tz=tz)) for x in EXPRS]
                for expr, c in crons:
                    rule = Rule(expr, tz)
                    now = utc()
                    due = rule.instants(now, now + S(86400 * 8))[:6]
                    got = [c.initial_when.astimezone(timezone.utc)]
                    while len(got) < len(due): got.append(c.next_time().astimezone(timezone.utc))
                    self.n += 1
                    if due and got != due:
                        self.bad.append(("times", f"{expr!r} in {self.zone} at {now.strftime(FMT)} UTC gives {[x.strftime(FMT) for x in got]}, the matching instants are {[x.strftime(FMT) for x in due]}"))
                    if not due and got[0] <= now + S(86400 * 8): self.bad.append(("times", f"{expr!r} in {self.zone} at {now} gives {got}"))
        # declared long before it is asked
        for late in (1, 59, 3600, 86400 * 3):
            for m in (30, 3601):
                await asyncio.sleep(m)
                crons = [(x, Cron(x, tz=tz)) for x in EXPRS]
                await asyncio.sleep(late)
                for expr, c in crons:
                    now = utc()
                    due = Rule(expr, tz).instants(now, now + S(86400 * 32))[:1]
                    got = c.initial_when.astimezone(timezone.utc)
                    self.n += 1
                    if due and got != due[0]: self.bad.append(("stale", f"{expr!r} in {self.zone} declared {late} s before {now.strftime(FMT)} UTC is first scheduled for {got.strftime(FMT)}, expected {due[0].strftime(FMT)}"))


def work(tier):
    deep = tier == "thorough"
    out = [(Alone(name=f"alone-{z}", zone=z), Bounds(depth=0)) for z in ZONES]
    for z, ms in {"UTC": ("newyear",), "NY": ("ny-spring", "ny-fall"), "Berlin": ("berlin-spring", "berlin-fall"), "Tokyo": ("newyear",), "Kolkata": ("newyear",), "London": ("berlin-spring", "berlin-fall")}.items():
        for m in ms:
            for early in (0, 7300) if not deep else (0, 1000, 7300, 90000):
                out.append((Real(name=f"real-{z}-{m}-{early}", zone=z, moment=m, early=early, hours=2.6 if not deep else 5), Bounds(depth=0)))
            if deep or z in ("UTC", "NY"):
                out.append((Real(name=f"late-{z}-{m}", zone=z, moment=m, hours=3.0, down=(0.7, 1.6)), Bounds(depth=0)))
                out.append((Real(name=f"long-{z}-{m}", zone=z, moment=m, hours=2.6, secs=1000.0), Bounds(depth=0)))
    return out
