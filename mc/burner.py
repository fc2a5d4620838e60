"""A stand-in for the `burner_redis` package whose every command is one operation handed to the simulated environment.

`sim.ENV` (the environment of the run in progress) decides when each operation executes against its Store.
"""
import asyncio, sys, types, uuid, collections, inspect
from datetime import timedelta, datetime
import redis.exceptions
from .store import B, OK


class ResponseError(redis.exceptions.ResponseError): pass
class NoScriptError(redis.exceptions.NoScriptError): pass
class LockError(redis.exceptions.LockError): pass


ENV = None          # set by sim


def _b(v):
    if isinstance(v, bytes): return v
    if isinstance(v, str): return v.encode()
    return B(v)


def _secs(t):
    return b"%d" % (int(t.total_seconds()) if isinstance(t, timedelta) else int(t))


def _msecs(t):
    return b"%d" % (int(t.total_seconds() * 1000) if isinstance(t, timedelta) else int(t))


def _ts(t, mult=1):
    return b"%d" % (int(t.timestamp() * mult) if isinstance(t, datetime) else int(t))


def _pairs(r):
    return dict(zip(r[::2], r[1::2]))


def _entries(r):
    return [(e[0], _pairs(e[1]) if e[1] is not None else {}) for e in r if e is not None]


def _streams(r):
    return [[k, _entries(es)] for k, es in r] if r else []


def _ok(r): return r == OK or r == b"OK"
def _same(r): return r
def _fl(r): return None if r is None else float(r)
def _keys(ks): return [_b(k) for k in ([ks] if isinstance(ks, (str, bytes, memoryview)) else ks)]


def _zpairs(withscores):
    if not withscores: return _same
    return lambda r: [(m, float(s)) for m, s in zip(r[::2], r[1::2])]


# Each builder returns (raw command list, reply transform, block milliseconds or None)
class _Build:
    def get(self, name): return [b"GET", _b(name)], _same

    def set(self, name, value, ex=None, px=None, nx=False, xx=False):
        c = [b"SET", _b(name), _b(value)]
        if ex is not None: c += [b"EX", _secs(ex)]
        if px is not None: c += [b"PX", _msecs(px)]
        if nx: c.append(b"NX")
        if xx: c.append(b"XX")
        return c, lambda r: True if r == OK else None

    def setex(self, name, time, value): return self.set(name, value, ex=time)
    def mget(self, keys, *args): return [b"MGET"] + _keys(keys) + [_b(a) for a in args], _same
    def exists(self, *names): return [b"EXISTS"] + [_b(n) for n in names], _same
    def keys(self, pattern="*"): return [b"KEYS", _b(pattern)], _same
    def ttl(self, name): return [b"TTL", _b(name)], _same
    def delete(self, *names): return [b"DEL"] + [_b(n) for n in names], _same
    def expire(self, name, time): return [b"EXPIRE", _b(name), _secs(time)], bool

    def hset(self, name, key=None, value=None, mapping=None):
        c = [b"HSET", _b(name)]
        if key is not None: c += [_b(key), _b(value)]
        for k, v in (mapping or {}).items(): c += [_b(k), _b(v)]
        return c, _same

    def hget(self, name, key): return [b"HGET", _b(name), _b(key)], _same
    def hgetall(self, name): return [b"HGETALL", _b(name)], _pairs
    def hdel(self, name, *keys): return [b"HDEL", _b(name)] + [_b(k) for k in keys], _same
    def hexists(self, name, key): return [b"HEXISTS", _b(name), _b(key)], bool
    def hvals(self, name): return [b"HVALS", _b(name)], _same
    def hincrby(self, name, key, amount=1): return [b"HINCRBY", _b(name), _b(key), b"%d" % amount], _same

    def sadd(self, name, *v): return [b"SADD", _b(name)] + [_b(x) for x in v], _same
    def srem(self, name, *v): return [b"SREM", _b(name)] + [_b(x) for x in v], _same
    def smembers(self, name): return [b"SMEMBERS", _b(name)], set
    def sismember(self, name, v): return [b"SISMEMBER", _b(name), _b(v)], bool

    def zadd(self, name, mapping, nx=False, xx=False, ch=False, incr=False, gt=False, lt=False):
        c = [b"ZADD", _b(name)] + [f for f, on in ((b"NX", nx), (b"XX", xx), (b"GT", gt), (b"LT", lt), (b"CH", ch), (b"INCR", incr)) if on]
        for m, s in mapping.items(): c += [_b(s), _b(m)]
        return c, _same

    def zrem(self, name, *v): return [b"ZREM", _b(name)] + [_b(x) for x in v], _same
    def zcard(self, name): return [b"ZCARD", _b(name)], _same
    def zcount(self, name, min, max): return [b"ZCOUNT", _b(name), _b(min), _b(max)], _same
    def zscore(self, name, v): return [b"ZSCORE", _b(name), _b(v)], _fl

    def zrange(self, name, start, end, desc=False, withscores=False):
        return [b"ZREVRANGE" if desc else b"ZRANGE", _b(name), _b(start), _b(end)] + ([b"WITHSCORES"] if withscores else []), _zpairs(withscores)

    def zrangebyscore(self, name, min, max, start=None, num=None, withscores=False):
        c = [b"ZRANGEBYSCORE", _b(name), _b(min), _b(max)]
        if start is not None: c += [b"LIMIT", _b(start), _b(num)]
        return c + ([b"WITHSCORES"] if withscores else []), _zpairs(withscores)

    def zremrangebyscore(self, name, min, max): return [b"ZREMRANGEBYSCORE", _b(name), _b(min), _b(max)], _same
    def zrangestore(self, dest, name, start, end): return [b"ZRANGESTORE", _b(dest), _b(name), _b(start), _b(end)], _same

    def lpush(self, name, *v): return [b"LPUSH", _b(name)] + [_b(x) for x in v], _same
    def rpush(self, name, *v): return [b"RPUSH", _b(name)] + [_b(x) for x in v], _same
    def lpop(self, name, count=None): return [b"LPOP", _b(name)] + ([b"%d" % count] if count is not None else []), _same
    def rpop(self, name, count=None): return [b"RPOP", _b(name)] + ([b"%d" % count] if count is not None else []), _same
    def lrange(self, name, start, end): return [b"LRANGE", _b(name), _b(start), _b(end)], _same
    def llen(self, name): return [b"LLEN", _b(name)], _same
    def lindex(self, name, i): return [b"LINDEX", _b(name), _b(i)], _same
    def lrem(self, name, n, v): return [b"LREM", _b(name), _b(n), _b(v)], _same
    def lset(self, name, i, v): return [b"LSET", _b(name), _b(i), _b(v)], _ok
    def ltrim(self, name, a, b): return [b"LTRIM", _b(name), _b(a), _b(b)], _ok
    def lmove(self, a, b, src="LEFT", dest="RIGHT"): return [b"LMOVE", _b(a), _b(b), _b(src), _b(dest)], _same
    def rpoplpush(self, a, b): return [b"RPOPLPUSH", _b(a), _b(b)], _same

    def blpop(self, keys, timeout=0):
        return [b"BLPOP"] + _keys(keys) + [b"0"], (lambda r: tuple(r) if r else None), (timeout or 0) * 1000

    def brpop(self, keys, timeout=0):
        return [b"BRPOP"] + _keys(keys) + [b"0"], (lambda r: tuple(r) if r else None), (timeout or 0) * 1000

    def xadd(self, name, fields, id="*", maxlen=None, approximate=True, nomkstream=False, minid=None):
        c = [b"XADD", _b(name)]
        if maxlen is not None: c += [b"MAXLEN"] + ([b"~"] if approximate else []) + [_b(maxlen)]
        c.append(_b(id))
        for k, v in fields.items(): c += [_b(k), _b(v)]
        return c, _same

    def xlen(self, name): return [b"XLEN", _b(name)], _same
    def xdel(self, name, *ids): return [b"XDEL", _b(name)] + [_b(i) for i in ids], _same

    def xtrim(self, name, maxlen=None, approximate=True, minid=None, limit=None):
        c = [b"XTRIM", _b(name)] + ([b"MAXLEN"] if maxlen is not None else [b"MINID"])
        return c + ([b"~"] if approximate else []) + [_b(maxlen if maxlen is not None else minid)], _same

    def xrange(self, name, min="-", max="+", count=None):
        return [b"XRANGE", _b(name), _b(min), _b(max)] + ([b"COUNT", _b(count)] if count is not None else []), _entries

    def xread(self, streams, count=None, block=None):
        c = [b"XREAD"] + ([b"COUNT", _b(count)] if count is not None else [])
        c += [b"STREAMS"] + [_b(k) for k in streams] + [_b(i) for i in streams.values()]
        return c, _streams, block

    def xreadgroup(self, groupname, consumername, streams, count=None, block=None, noack=False):
        c = [b"XREADGROUP", b"GROUP", _b(groupname), _b(consumername)] + ([b"COUNT", _b(count)] if count is not None else [])
        c += ([b"NOACK"] if noack else []) + [b"STREAMS"] + [_b(k) for k in streams] + [_b(i) for i in streams.values()]
        return c, _streams, block

    def xack(self, name, g, *ids): return [b"XACK", _b(name), _b(g)] + [_b(i) for i in ids], _same

    def xautoclaim(self, name, groupname, consumername, min_idle_time, start_id="0-0", count=None, justid=False):
        c = [b"XAUTOCLAIM", _b(name), _b(groupname), _b(consumername), _b(min_idle_time), _b(start_id)]
        if count is not None: c += [b"COUNT", _b(count)]
        return c, lambda r: [r[0], _entries(r[1]), r[2]]

    def xclaim(self, name, groupname, consumername, min_idle_time, message_ids, idle=None, time=None, retrycount=None,
               force=False, justid=False):
        c = [b"XCLAIM", _b(name), _b(groupname), _b(consumername), _b(min_idle_time)] + [_b(i) for i in message_ids]
        if idle is not None: c += [b"IDLE", _b(idle)]
        if time is not None: c += [b"TIME", _b(time)]
        if retrycount is not None: c += [b"RETRYCOUNT", _b(retrycount)]
        if force: c.append(b"FORCE")
        if justid: c.append(b"JUSTID")
        return c, (_same if justid else _entries)

    def xpending(self, name, g):
        return [b"XPENDING", _b(name), _b(g)], lambda r: {"pending": r[0], "min": r[1], "max": r[2], "consumers": [
            {"name": n, "pending": int(c)} for n, c in r[3] or []]}

    def xpending_range(self, name, groupname, min, max, count, consumername=None, idle=None):
        c = [b"XPENDING", _b(name), _b(groupname)] + ([b"IDLE", _b(idle)] if idle else []) + [_b(min), _b(max), _b(count)]
        if consumername is not None: c.append(_b(consumername))
        return c, lambda r: [dict(zip(("message_id", "consumer", "time_since_delivered", "times_delivered"), e)) for e in r]

    def xgroup_create(self, name, groupname, id="$", mkstream=False, entries_read=None):
        return [b"XGROUP CREATE", _b(name), _b(groupname), _b(id)] + ([b"MKSTREAM"] if mkstream else []), _ok

    def xgroup_destroy(self, name, g): return [b"XGROUP DESTROY", _b(name), _b(g)], _same

    def xinfo_groups(self, name):
        return [b"XINFO GROUPS", _b(name)], lambda r: [{k.decode(): v for k, v in _pairs(g).items()} for g in r]

    def xinfo_consumers(self, name, g):
        return [b"XINFO CONSUMERS", _b(name), _b(g)], lambda r: [{k.decode(): v for k, v in _pairs(x).items()} for x in r]

    def xinfo_stream(self, name): return [b"XINFO STREAM", _b(name)], lambda r: {k.decode(): v for k, v in _pairs(r).items()}
    def publish(self, ch, msg): return [b"PUBLISH", _b(ch), _b(msg)], _same
    def script_load(self, s): return [b"SCRIPT LOAD", _b(s)], lambda r: r.decode()
    def script_exists(self, *h): return [b"SCRIPT EXISTS"] + [_b(x) for x in h], lambda r: [bool(x) for x in r]
    def eval(self, s, n, *a): return [b"EVAL", _b(s), _b(n)] + [_b(x) for x in a], _same
    def evalsha(self, h, n, *a): return [b"EVALSHA", _b(h), _b(n)] + [_b(x) for x in a], _same


_build = _Build()
_PIPE = {n for n in dir(_Build) if not n.startswith("_")} - {"xinfo_stream", "publish", "blpop", "brpop", "script_load",
                                                             "script_exists", "eval", "evalsha", "keys"}


class Op:
    __slots__ = ("idx", "proc", "task", "cmds", "outs", "block", "fut", "name", "acc", "step", "t", "state", "until", "need",
                 "seen", "waiting", "script", "act", "pipe", "calls")


def _client_method(name):
    b = getattr(_build, name)

    async def method(self, *a, **kw):
        r = b(*a, **kw)
        return await ENV.submit(name, [r[0]], [r[1]], r[2] if len(r) > 2 else None, calls=[(name, a, kw)])
    method.__name__ = name
    return method


class BurnerRedis:
    def __init__(self):
        pass

    def pipeline(self, transaction=True, shard_hint=None): return Pipeline(self)

    def lock(self, name, timeout=None, sleep=0.1, blocking=True, blocking_timeout=None):
        return Lock(self, name, timeout, sleep, blocking, blocking_timeout)

    def pubsub(self, ignore_subscribe_messages=False): return PubSub(self, ignore_subscribe_messages)
    def register_script(self, script): return Script(self, script)

    async def scan_iter(self, match=None, count=None, _type=None):
        for k in await self.keys(match if match is not None else "*"):
            yield k

    async def aclose(self): pass
    close = aclose
    async def __aenter__(self): return self
    async def __aexit__(self, *a): return None


for _n in dir(_Build):
    if not _n.startswith("_"): setattr(BurnerRedis, _n, _client_method(_n))


class Pipeline:
    def __init__(self, client):
        self._c = client
        self._commands = []

    async def execute(self, raise_on_error=True):
        cmds, self._commands = self._commands, []
        if not cmds: return []
        res = await ENV.submit("pipeline", [c[0][0] for c in cmds], [c[0][1] for c in cmds], None, pipe=True,
                               calls=[c[1] for c in cmds])
        if raise_on_error:
            for r in res:
                if isinstance(r, Exception): raise r
        return res

    async def __aenter__(self): return self

    async def __aexit__(self, *a):
        self._commands = []
        return False

    def __len__(self): return len(self._commands)


def _pipe_method(name):
    b = getattr(_build, name)

    def method(self, *a, **kw):
        self._commands.append((b(*a, **kw), (name, a, kw)))
        return self
    method.__name__ = name
    return method


for _n in _PIPE: setattr(Pipeline, _n, _pipe_method(_n))


class Script:
    def __init__(self, client, script):
        self.client, self.script, self.sha = client, script if isinstance(script, str) else script.decode(), None

    async def __call__(self, keys=[], args=[], client=None):
        t = client or self.client
        if self.sha is None: self.sha = await t.script_load(self.script)
        e = lambda a: a if isinstance(a, (str, bytes, memoryview)) else str(a)
        return await t.evalsha(self.sha, len(keys), *map(e, keys), *map(e, args))


RELEASE = 'if redis.call("get", KEYS[1]) == ARGV[1] then return redis.call("del", KEYS[1]) else return 0 end'


class Lock:
    def __init__(self, client, name, timeout=None, sleep=0.1, blocking=True, blocking_timeout=None):
        self._client, self.name, self.timeout, self.sleep = client, name, timeout, sleep
        self.blocking, self.blocking_timeout, self.token = blocking, blocking_timeout, None

    async def acquire(self, blocking=None, blocking_timeout=None):
        import time
        blocking = self.blocking if blocking is None else blocking
        blocking_timeout = self.blocking_timeout if blocking_timeout is None else blocking_timeout
        token = str(uuid.uuid4())
        px = int(self.timeout * 1000) if self.timeout is not None else None
        deadline = time.monotonic() + blocking_timeout if blocking_timeout is not None else None
        while True:
            if await self._client.set(self.name, token, px=px, nx=True):
                self.token = token
                return True
            if not blocking or (deadline is not None and time.monotonic() >= deadline): return False
            await asyncio.sleep(self.sleep)

    async def release(self):
        if self.token is None: raise LockError("Cannot release an unlocked lock")
        if await self._client.eval(RELEASE, 1, self.name, self.token) != 1:
            raise LockError("Cannot release a lock that's no longer owned")
        self.token = None

    async def __aenter__(self):
        if not await self.acquire(): raise LockError("Unable to acquire lock")
        return self

    async def __aexit__(self, *a):
        await self.release()
        return False


class PubSub:
    def __init__(self, client, ignore_subscribe_messages=False):
        self.ignore_subscribe_messages = ignore_subscribe_messages
        self.channels, self.patterns = {}, {}
        self._live_c, self._live_p = {}, {}
        self._q = collections.deque()
        self._getter = None
        self._store = None
        self._closed = False
        self._proc = ENV.procname()

    @property
    def subscribed(self): return bool(self.channels or self.patterns)

    def _push(self, m):
        self._q.append(m)
        g = self._getter
        if g is not None and not g.done(): g.set_result(None)

    def _deliver(self, ch, data):
        from .store import glob_match
        n = 0
        if ch in self._live_c:
            n += 1
            self._push({"type": "message", "pattern": None, "channel": ch, "data": data})
        for p in self._live_p:
            if glob_match(p, ch):
                n += 1
                self._push({"type": "pmessage", "pattern": p, "channel": ch, "data": data})
        return n

    async def _sub(self, kind, live, local, args, kwargs):
        new = {_b(a): None for a in args}
        new.update({_b(c): h for c, h in kwargs.items()})
        if not new: return

        def act(store):
            if self._closed: return
            if self not in store.subs: store.subs.append(self)
            for c in new:
                live[c] = 1
                store.W(b"\0chan:" + c)
                self._push({"type": kind, "pattern": None, "channel": c, "data": len(self._live_c) + len(self._live_p)})
        await ENV.submit_action(kind, act)
        local.update(new)

    async def _unsub(self, kind, live, local, args):
        cs = [_b(a) for a in args] or list(local)
        if not cs: return

        def act(store):
            for c in cs:
                live.pop(c, None)
                store.W(b"\0chan:" + c)
                self._push({"type": kind, "pattern": None, "channel": c, "data": len(self._live_c) + len(self._live_p)})
            if not (self._live_c or self._live_p) and self in store.subs: store.subs.remove(self)
        await ENV.submit_action(kind, act)
        for c in cs: local.pop(c, None)

    async def subscribe(self, *a, **kw): await self._sub("subscribe", self._live_c, self.channels, a, kw)
    async def psubscribe(self, *a, **kw): await self._sub("psubscribe", self._live_p, self.patterns, a, kw)
    async def unsubscribe(self, *a): await self._unsub("unsubscribe", self._live_c, self.channels, a)
    async def punsubscribe(self, *a): await self._unsub("punsubscribe", self._live_p, self.patterns, a)

    def _pop(self):
        m = self._q.popleft()
        if isinstance(m, Exception):
            self.channels.clear()
            self.patterns.clear()
            raise m
        return m

    async def _get(self, timeout):
        if self._q: return self._pop()
        if timeout == 0.0:
            return None
        loop = asyncio.get_running_loop()
        end = None if timeout is None else loop.time() + timeout
        while not self._q:
            if end is not None and loop.time() >= end - 1e-9: return None
            self._getter = g = loop.create_future()
            h = loop.call_at(end, lambda: g.done() or g.set_result(None)) if end is not None else None
            try:
                await g
            finally:
                if h: h.cancel()
                self._getter = None
        return self._pop()

    async def get_message(self, ignore_subscribe_messages=False, timeout=0.0):
        while True:
            m = await self._get(timeout)
            if m is None: return None
            if m["type"] == "message" and m["channel"] not in self.channels: continue
            if m["type"] == "pmessage" and m["pattern"] not in self.patterns: continue
            h = None
            if m["type"] == "message": h = self.channels.get(m["channel"])
            elif m["type"] == "pmessage": h = self.patterns.get(m["pattern"])
            elif ignore_subscribe_messages or self.ignore_subscribe_messages:
                if timeout == 0.0: return None
                continue
            if h is not None:
                r = h(m)
                if inspect.isawaitable(r): await r
                if timeout == 0.0: return None
                continue
            return m

    handle_message = None

    async def listen(self):
        while self.subscribed:
            m = await self.get_message(timeout=None)
            if m is not None: yield m

    async def aclose(self):
        if self.channels: await self.unsubscribe()
        if self.patterns: await self.punsubscribe()
        self._closed = True
        ENV.forget(self)

    close = reset = aclose


def install():
    m = types.ModuleType("burner_redis")
    m.__path__ = []
    for n, v in dict(BurnerRedis=BurnerRedis, Lock=Lock, LockError=LockError, NoScriptError=NoScriptError, Pipeline=Pipeline,
                     PubSub=PubSub, ResponseError=ResponseError, Script=Script).items(): setattr(m, n, v)
    sys.modules["burner_redis"] = m
