"""One controlled run: virtual time, a deterministic event loop, and an environment that executes one operation at a time.

A run is a pure function of (scenario, parameters, deviations).  With no deviations every operation executes in the order
in which it was issued, as soon as no task can make progress without it.  A deviation is keyed by an operation's issue
index: hold it back, delay its reply, fail it, crash its process, or let the user act right after it.
"""
import asyncio, collections, contextvars, gc, heapq, math, os, random, sys, time as _time, types, weakref, warnings
from asyncio import events
from redis.exceptions import ConnectionError as RConnectionError
from . import vtime, burner
from .burner import Op
from .store import Store, conflicts

PROC = contextvars.ContextVar("PROC", default="main")
BASE = 1_767_225_600 * 10 ** 9        # 2026-01-01T00:00:00Z
MONO = 5_000 * 10 ** 9


class Deadlock(Exception): pass
class RunLimit(Exception): pass
class Divergence(Exception): pass


class DTask(asyncio.Task):
    def __init__(self, *a, **kw):
        e = burner.ENV
        e.ntasks += 1
        self.seq = e.ntasks
        super().__init__(*a, **kw)

    def __hash__(self): return self.seq
    def __eq__(self, o): return self is o


class Loop(asyncio.BaseEventLoop):
    def __init__(self, env):
        super().__init__()
        self.env = env
        self._clock_resolution = 0
        self.set_task_factory(lambda loop, coro, **kw: DTask(coro, loop=loop, **kw))
        self.set_exception_handler(lambda l, c: env.loop_errors.append(c))
        self._default_executor = None
        self.spins = 0

    def time(self): return self.env.ns / 1e9 + 5000.0
    def _process_events(self, e): pass
    def _write_to_self(self): pass

    def _timer_handle_cancelled(self, h): pass

    def run_in_executor(self, executor, func, *args):
        f = self.create_future()
        try:
            f.set_result(func(*args))
        except Exception as e:
            f.set_exception(e)
        return f

    def _run_once(self):
        ready, sched, env = self._ready, self._scheduled, self.env
        while True:
            now = self.time()
            while sched and (sched[0]._cancelled or sched[0]._when <= now + 1e-9):
                h = heapq.heappop(sched)
                h._scheduled = False
                if not h._cancelled: ready.append(h)
            if ready: break
            self.spins = 0
            env.advance(sched[0]._when if sched else None)
        # (the limits are enforced here, where no task can catch the exception)
        self.spins += 1
        if self.spins > 50000: raise RunLimit("busy loop")
        if self.spins % 1000 == 0: env.tick(1000)            # (computing takes time, too)
        if env.nops > env.limit_ops: raise RunLimit("operations")
        for _ in range(len(ready)):
            h = ready.popleft()
            if h._cancelled: continue
            if env.dead and h._context.get(PROC, "main") in env.dead: continue
            h._run()
        h = None


class _Done:
    __slots__ = ("v",)

    def __init__(self, v): self.v = v

    def __await__(self):
        if isinstance(self.v, BaseException): raise self.v
        return self.v
        yield


class Env:
    def __init__(self, scenario, devs=(), record=False):
        self.sc = scenario
        self.ns = 0
        self.store = Store(self.now)
        self.pending = collections.deque()
        self.held = []
        self.blocked = []
        self.late = []
        self.dead = set()
        self.down = {}
        self.ntasks = 0
        self.nops = 0
        self.nsteps = 0
        self.ops = []                   # executed ops, in execution order
        self.events = []                # scenario events: (seconds, proc, name, *data)
        self.loop_errors = []
        self.devs = {}
        for d in devs: self.devs.setdefault(d["at"], []).append(d)
        self.applied = 0
        self.ndev = len(devs)
        self.nheld = sum(d['k'] in ('hold', 'stall', 'late') for d in devs)
        self.explore = False
        self.instant_mode = False
        self.closed = False
        self.procs = {}
        self.crashed = []
        self.record = [] if record else None
        self.limit_ops = getattr(scenario, "max_ops", 20000)
        self.limit_time = getattr(scenario, "max_time", 3600.0)
        self.hold_limit = getattr(scenario, "hold_limit", 3.0)
        self.status = "ok"
        self.step_hooks = []
        self.data = types.SimpleNamespace()

    # ---- clock
    def now(self): return (BASE + self.ns) / 1e9

    def t(self): return self.ns / 1e9

    def tick(self, ns):
        self.ns += ns
        vtime.set_ns(BASE + self.ns, MONO + self.ns)

    # ---- events
    def ev(self, name, *data):
        self.events.append((round(self.ns / 1e9, 6), PROC.get(), name) + data)

    # ---- processes
    def spawn(self, name, coro, proc=None):
        ctx = contextvars.copy_context()
        ctx.run(PROC.set, proc or name)
        t = self.loop.create_task(coro, context=ctx)
        self.procs[name] = t
        return t

    def crash(self, proc):
        if proc in self.dead: return
        self.events.append((round(self.ns / 1e9, 6), proc, "crash"))
        self.dead.add(proc)
        self.crashed.append(proc)
        self.pending = collections.deque(o for o in self.pending if o.proc != proc)
        self.held = [o for o in self.held if o.proc != proc]
        self.blocked = [o for o in self.blocked if o.proc != proc]
        self.late = [o for o in self.late if o.proc != proc]
        self.store.subs = [s for s in self.store.subs if getattr(s, "_proc", None) != proc]
        self.sc.on_crash(self, proc)

    # ---- operations
    def submit(self, name, cmds, outs, block, pipe=False, act=None, calls=None):
        if self.closed: raise RConnectionError("closed")
        if self.instant_mode:
            r = []
            for c, o in zip(cmds, outs):
                try: r.append(("ok", o(self.store.call(*c))))
                except Exception as e: r.append(("error", e))
            if self.record is not None and calls is not None:
                self.record.append((self.ns, calls, [(k, str(x) if k == "error" else x) for k, x in r], pipe))
            for k, x in r:
                if k == "error": return _Done(x)
            r = [x for _, x in r]
            return _Done(r if pipe else r[0])
        op = Op()
        op.idx = self.nops
        self.nops += 1
        op.proc = PROC.get()
        t = asyncio.current_task()
        op.task = t.seq if t is not None else 0
        op.cmds, op.outs, op.block, op.pipe, op.name, op.act = cmds, outs, block, pipe, name, act
        op.calls = calls
        op.fut = self.loop.create_future()
        op.acc = None
        op.state = "pending"
        op.until = None
        op.need = op.seen = 0
        op.script = self.explore
        op.waiting = None
        op.step = -1
        d = self.devs.get(op.idx)
        if d:
            for x in d:
                if x["k"] in ("hold", "stall"):
                    self.applied += 1
                    op.until = self.t() + (x["s"] if x["k"] == "stall" else self.hold_limit)
                    op.need = x.get("m", 0)
                    op.waiting = x.get("acc")
                    op.state = "held"
        (self.held if op.state == "held" else self.pending).append(op)
        return op.fut

    def submit_action(self, name, act):
        if self.closed: raise RConnectionError("closed")
        if self.instant_mode:
            act(self.store)
            return _Done(None)
        return self.submit(name, [], [], None, act=act)

    def procname(self): return PROC.get()

    def drop_pubsubs(self, proc):
        """The process' pub/sub connections break: their readers get a connection error."""
        for ps in list(self.store.subs):
            if ps._proc == proc:
                self.store.subs.remove(ps)
                ps._live_c.clear()
                ps._live_p.clear()
                ps._push(RConnectionError("connection lost"))

    def outage(self, proc, seconds, drop=True):
        """For the given time every operation of the process fails with a connection error, the blocked ones too."""
        self.down[proc] = self.t() + seconds
        if drop: self.drop_pubsubs(proc)
        for op in [o for o in self.blocked if o.proc == proc]:
            self.blocked.remove(op)
            op.state = "done"
            if not op.fut.done(): op.fut.set_exception(RConnectionError("connection lost"))

    def forget(self, ps):
        if ps in self.store.subs: self.store.subs.remove(ps)

    def advance(self, timer):
        """No task can run: execute the next operation, or let time pass until something can happen."""
        while True:
            if self.pending:
                op = self.pending.popleft()
                if op.fut.cancelled() and op.block is not None: continue
                self.execute(op)
                return
            t = timer
            nxt = None
            for op in self.held + self.late:
                if nxt is None or op.until < nxt.until: nxt = op
            if nxt is not None and (t is None or nxt.until + 5000.0 < t):
                if nxt.until > self.t(): self.to(nxt.until)
                if nxt.state == "late":
                    self.late.remove(nxt)
                    self.reply(nxt)
                    return
                self.held.remove(nxt)
                nxt.state = "pending"
                self.pending.append(nxt)
                continue
            if t is None: raise Deadlock()
            self.to(t - 5000.0)
            return

    def to(self, t):
        if t > self.limit_time: raise RunLimit("time")
        self.tick(max(0, math.ceil(round(t * 1e9, 2)) + 1 - self.ns))
        while self.ns / 1e9 + 5000.0 + 1e-9 < t + 5000.0: self.tick(2)       # far from zero, floats have less than nanosecond resolution

    def execute(self, op):
        self.tick(1000)
        st = self.store
        devs = self.devs.get(op.idx)
        after = None
        if devs:
            for x in devs:
                k = x["k"]
                if k in ("hold", "stall"): continue
                self.applied += 1
                if k == "crash" and x["w"] == "before":
                    self.crash(op.proc)
                    return
                if k == "err" and x["w"] == "before":
                    self.events.append((round(self.t(), 6), op.proc, "err", op.name))
                    if not op.fut.done(): op.fut.set_exception(RConnectionError("injected"))
                    return
                after = (after or []) + [x]
        if self.down and self.down.get(op.proc, 0.0) > self.t():
            op.state = "done"
            if not op.fut.done(): op.fut.set_exception(RConnectionError("connection refused"))
            return
        log = st.log = []
        st.touched = set()
        res = []
        if op.act is not None:
            op.act(st)
            res.append(None)
        for c in op.cmds:
            try:
                res.append(st.call(*c))
            except Exception as e:
                res.append(e)
        op.acc = log
        touched, st.log = st.touched, None
        op.step = self.nsteps
        op.t = self.ns
        if self.record is not None: self.note(op, res)
        self.nsteps += 1
        self.ops.append(op)
        if op.block is not None and res[0] is None:
            op.state = "blocked"
            self.blocked.append(op)
            if op.block: self.loop.call_later(op.block / 1000, self.unblock, op)
        else:
            op.waiting = None
            self.finish(op, res)
        if touched and self.blocked: self.wake(touched)
        if self.held:
            for h in list(self.held):
                if h.need and h.task != op.task and conflicts(h.waiting, log):
                    h.seen += 1
                    if h.seen >= h.need:
                        self.held.remove(h)
                        h.state = "pending"
                        self.pending.append(h)
        if self.late:
            for h in list(self.late):
                h.need -= 1
                if h.need <= 0:
                    self.late.remove(h)
                    self.reply(h)
        if after:
            for x in after:
                k = x["k"]
                if k == "crash": self.crash(op.proc)
                elif k == "inject":
                    self.events.append((round(self.t(), 6), "main", "inject", x["w"]))
                    self.spawn(f"inject{op.idx}", self.sc.inject(self, x["w"]), proc="user")
        for h in self.step_hooks: h(op)

    def note(self, op, res):
        if op.calls is None: return
        self.record.append((self.ns, op.calls, [("error", str(x)) if isinstance(x, Exception) else ("ok", o(x))
                                                for o, x in zip(op.outs, res)], op.pipe))

    def finish(self, op, res):
        op.state = "done"
        for x in self.devs.get(op.idx, ()):
            if x["k"] == "err" and x["w"] == "after":
                self.events.append((round(self.t(), 6), op.proc, "err", op.name))
                if not op.fut.done(): op.fut.set_exception(RConnectionError("injected"))
                return
        op.waiting = res
        for x in self.devs.get(op.idx, ()):
            if x["k"] == "late":
                op.state = "late"
                op.need = x["m"]
                op.until = self.t() + self.hold_limit
                self.late.append(op)
                return
        self.reply(op)

    def reply(self, op):
        op.state = "done"
        res, op.waiting = op.waiting, None
        if op.fut.done() or op.proc in self.dead: return
        try:
            if op.act is not None: r = [None]
            else:
                r = [x if isinstance(x, Exception) else o(x) for o, x in zip(op.outs, res)]
                for i, x in enumerate(r):
                    if isinstance(x, burner.redis.exceptions.NoScriptError): r[i] = burner.NoScriptError(str(x))
                    elif type(x) is burner.redis.exceptions.ResponseError: r[i] = burner.ResponseError(str(x))
        except Exception as e:
            op.fut.set_exception(e)
            return
        if op.pipe: op.fut.set_result(r)
        elif isinstance(r[0], Exception): op.fut.set_exception(r[0])
        else: op.fut.set_result(r[0])

    def unblock(self, op):
        if op in self.blocked:
            self.blocked.remove(op)
            if not op.fut.done(): op.fut.set_result(op.outs[0](None))

    def wake(self, touched):
        for b in list(self.blocked):
            if b.fut.done():
                self.blocked.remove(b)
                continue
            c = b.cmds[0]
            if not any(k in touched for k in c): continue
            self.store.log = []
            try:
                r = self.store.call(*c)
            except Exception as e:
                r = e
            b.acc = b.acc + self.store.log
            self.store.log = None
            if r is None: continue
            self.blocked.remove(b)
            if self.record is not None: self.note(b, [r])
            self.finish(b, [r])

    # ---- synchronous use of the public API between steps
    def instant(self, coro):
        self.instant_mode = True
        try:
            coro.send(None)
        except StopIteration as e:
            return e.value
        finally:
            self.instant_mode = False
            coro.close()
        raise RuntimeError("an instant call suspended")


PRELOADED = {}          # scripts every fresh store already knows (learned by warm-up runs)
_runs = 0


def _quiet(*a, **k): pass


class Result:
    __slots__ = ("env", "status", "error", "violations", "value", "sig")


def run(scenario, devs=(), record=False):
    """Execute one run of the scenario under the deviations; return the Env (with env.status, env.error)."""
    global _runs
    _runs += 1
    gc.disable()
    env = Env(scenario, devs, record)
    rnd = random.Random(12345)
    saved = os.urandom
    os.urandom = lambda n: rnd.randbytes(n)
    random._urandom = os.urandom
    random.seed(777)
    burner.ENV = env
    env.store.scripts.update(PRELOADED)
    env.tick(0)
    sys.unraisablehook = _quiet
    loop = env.loop = Loop(env)
    for f in scenario.resets: f()
    env.error = None
    try:
        asyncio.set_event_loop(loop)
        try:
            env.value = loop.run_until_complete(scenario.main(env))
        except Deadlock:
            env.status = "deadlock"
        except RunLimit as e:
            env.status = f"limit:{e}"
        except RConnectionError as e:
            env.status, env.error = "error", e
        except Exception as e:
            env.status, env.error = "error", e
    finally:
        env.end_ns = env.ns
        env.closed = True
        loop._ready.clear()
        loop._scheduled.clear()
        loop.close()
        asyncio.set_event_loop(None)
        os.urandom = saved
        random._urandom = saved
        vtime.off()
    return env


def reset_between():
    pass


def dispose(env):
    env.pending.clear(); env.held.clear(); env.blocked.clear(); env.late.clear(); env.procs.clear(); env.step_hooks.clear()
    if _runs % 25 == 0: gc.collect()


class Scenario:
    """Base class: override main(env), check(env), inject(env, which)."""
    name = "scenario"
    resets = ()
    kinds = ("hold",)

    def __init__(self, **params):
        self.params = params
        for k, v in params.items(): setattr(self, k, v)

    inject_after_reads = False
    warm_runs = 3                   # how many scenarios of this class run once beforehand (0 when none uses the store)
    explore_procs = None            # names of the processes whose operations deviations may be placed at (None: all)

    def allow(self, op, env): return self.explore_procs is None or op.proc in self.explore_procs
    def allow_hold(self, op, env): return True
    def allow_crash(self, op, env): return op.proc.startswith("w")
    def allow_err(self, op, env): return op.proc.startswith("w")
    def allow_inject(self, op, env): return True
    def tolerates(self, env): return False
    def covered(self, env): return ()
    def counts(self, env): return 0, 0      # further (states, transitions) this run explored by itself
    def on_crash(self, env, proc): pass
    async def main(self, env): raise NotImplementedError
    async def inject(self, env, which): raise NotImplementedError
    def injections(self): return ()
    def check(self, env): return []
