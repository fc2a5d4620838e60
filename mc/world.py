"""Helpers shared by the scenarios: dockets, workers and clients as simulated processes, over docket's public API."""
import asyncio, logging, os, sys
from contextlib import asynccontextmanager
from datetime import datetime, timedelta, timezone
from . import burner
burner.install()
sys.path.insert(0, os.environ.get("MC_REPO_SRC", "/repo/src"))
sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)
logging.raiseExceptions = False
import docket as D                                                     # noqa: E402
from docket import Docket, Worker                                      # noqa: E402
from . import sim                                                      # noqa: E402
from .sim import Scenario, PROC, Deadlock, RunLimit                    # noqa: E402
try:
    from docket import _uuid7 as _u7
except ImportError:
    _u7 = None

assert os.path.realpath(D.__file__).startswith(os.path.realpath(os.environ.get("MC_REPO_SRC", "/repo/src"))), D.__file__

S = lambda s: timedelta(seconds=s)
URL = "memory://mc"


def reset_uuid():
    try:
        _u7._last[:] = [0, 0, 0, 0]
    except Exception:
        pass


class World(Scenario):
    """A scenario with one docket name, a tasks factory, client and worker processes."""
    resets = (reset_uuid,)
    docket_name = "d"
    poll = 1.0                  # worker polling interval (minimum_check_interval, scheduling_resolution)
    redelivery = 30.0
    concurrency = 10
    ttl = 900.0
    heartbeat = 20.0
    auto = False                # schedule_automatic_tasks
    worker_args = {}

    def tasks(self, env):
        """Fresh task functions for one process: a namespace (dict name -> function)."""
        return {}

    def docket(self, env, **kw):
        kw.setdefault("name", self.docket_name)
        kw.setdefault("url", URL)
        kw.setdefault("execution_ttl", S(self.ttl))
        kw.setdefault("heartbeat_interval", S(self.heartbeat))
        return Docket(**kw)

    @asynccontextmanager
    async def client(self, env, **kw):
        """A client process' docket with its own copy of the task functions."""
        async with self.docket(env, **kw) as d:
            fns = self.tasks(env)
            for n, f in fns.items(): d.register(f, names=[n])
            d.fns = fns
            yield d

    def worker(self, d, name, **kw):
        a = dict(name=name, concurrency=self.concurrency, redelivery_timeout=S(self.redelivery), reconnection_delay=S(1),
                 minimum_check_interval=S(self.poll), scheduling_resolution=S(self.poll), schedule_automatic_tasks=self.auto)
        a.update(self.worker_args)
        a.update(kw)
        return Worker(d, **a)

    async def run_worker(self, env, name, mode="forever", arg=None, **kw):
        try:
            async with self.client(env) as d:
                async with self.worker(d, name, **kw) as w:
                    env.data.__dict__.setdefault("workers", {})[name] = w
                    if mode == "forever": await w.run_forever()
                    elif mode == "finish": await w.run_until_finished()
                    else: await w.run_at_most(arg)
        except asyncio.CancelledError:
            env.ev("worker-cancelled", name)
            raise
        except BaseException as e:
            env.ev("worker-died", name, repr(e))
            raise
        env.ev("worker-exit", name)

    def start_worker(self, env, name, **kw):
        return env.spawn(name, self.run_worker(env, name, **kw))


    async def stolen(self, env, **kw):
        """Let a worker that dies as soon as it has read them take everything that is ready to run."""
        def hook(op):
            if op.proc == "thief" and op.name.startswith("xreadgroup") and any(w for _, _, w in op.acc): env.crash("thief")
        env.step_hooks.append(hook)
        self.start_worker(env, "thief", **kw)
        for _ in range(100):
            await asyncio.sleep(0.05)
            if "thief" in env.dead: break
        else: raise RuntimeError("nothing was stolen")
        env.step_hooks.remove(hook)


def body(env, name, *extra):
    """Log the start and finish of a task body run."""
    class _B:
        async def __aenter__(s):
            env.data.__dict__.setdefault("bodies", [0])[0] += 1
            s.n = env.data.bodies[0]
            env.ev("start", name, s.n, *extra)
            return s

        async def __aexit__(s, t, v, tb):
            env.ev("finish", name, s.n, t.__name__ if t else None)
            return False
    return _B()


def utc(): return datetime.now(timezone.utc)


def evs(env, *names): return [e for e in env.events if e[2] in names]


def starts(env, name=None): return [e for e in env.events if e[2] == "start" and (name is None or e[3] == name)]


def finishes(env, name=None): return [e for e in env.events if e[2] == "finish" and (name is None or e[3] == name)]


def keyspace(env):
    """The keys present in the store now."""
    env.store.sweep()
    return list(env.store.d)
