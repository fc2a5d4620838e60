"""A deterministic in-process Redis data model: raw commands on bytes, with an access log.

Every command takes and returns raw protocol values (bytes, int, None, list, Status).  `log` collects the accesses of
the operation being executed as (key, sub, write) triples; two operations conflict when they touch the same key and
sub (or one of them the whole key, sub '*') and at least one writes.
"""
import fnmatch, hashlib, math, re
from redis.exceptions import ResponseError, NoScriptError
from . import lua


class Status(bytes):
    pass


OK = Status(b"OK")


def B(v):
    if isinstance(v, bytes): return v
    if isinstance(v, str): return v.encode()
    if isinstance(v, (bytearray, memoryview)): return bytes(v)
    if isinstance(v, bool): raise TypeError("Invalid input of type: 'bool'")
    if isinstance(v, int): return b"%d" % v
    if isinstance(v, float): return repr(v).encode()
    raise TypeError(f"Invalid input of type {type(v).__name__}")


def num(s):
    if isinstance(s, (int, float)): return s
    s = s.lower()
    try:
        if s in (b"inf", b"+inf", b"-inf"): return float(s.decode())
        return float(s)
    except ValueError:
        raise ResponseError("value is not a valid float")


def fnum(f):
    if f == int(f) and abs(f) < 1e17: return b"%d" % int(f)
    return repr(float(f)).encode()


def integer(s):
    try:
        if not re.fullmatch(rb"[+-]?\d+", s): raise ValueError
        return int(s)
    except (ValueError, TypeError):
        raise ResponseError("value is not an integer or out of range")


class Stream:
    __slots__ = ("e", "last", "groups", "added")

    def __init__(self):
        self.e = {}           # id tuple -> flat field list, insertion order == id order
        self.last = (0, 0)
        self.groups = {}
        self.added = 0


class Group:
    __slots__ = ("last", "pel", "consumers", "read")

    def __init__(self, last):
        self.last = last
        self.pel = {}         # id -> [consumer, delivery_ms, count]
        self.consumers = {}
        self.read = 0


def sid(t):
    return b"%d-%d" % t


def glob_match(pat, s):
    out, i = b"", 0
    while i < len(pat):
        c = pat[i:i + 1]
        if c == b"*": out += rb"[\s\S]*"
        elif c == b"?": out += rb"[\s\S]"
        elif c == b"\\" and i + 1 < len(pat):
            i += 1
            out += re.escape(pat[i:i + 1])
        elif c == b"[" and (j := pat.find(b"]", i + 1)) > 0:
            body = pat[i + 1:j]
            neg = body[:1] == b"^"
            out += b"[" + (b"^" if neg else b"") + body[neg:].replace(b"\\", b"\\\\") + b"]"
            i = j
        else: out += re.escape(c)
        i += 1
    return re.fullmatch(out, s) is not None


class Store:
    def __init__(self, clock):
        self.now = clock            # () -> seconds (float)
        self.d = {}                 # key -> value
        self.exp = {}               # key -> expiry (seconds)
        self.scripts = {}
        self.subs = []              # live PubSub objects, in subscription order
        self.log = None             # list while an operation executes
        self.touched = None         # keys written by the running operation (for wake-ups)
        self.lua_env = None
        self.msgs = 0

    # ---- bookkeeping
    def R(self, k, sub="*"):
        if self.log is not None: self.log.append((k, sub, False))

    def W(self, k, sub="*"):
        if self.log is not None:
            self.log.append((k, sub, True))
            self.touched.add(k)

    def ms(self):
        return int(self.now() * 1000 + 1e-6)

    def raw(self, k):
        x = self.exp.get(k)
        if x is not None and self.now() >= x:
            del self.exp[k]
            self.d.pop(k, None)
            if self.log is not None: self.log.append((k, "*", True))
        return self.d.get(k)

    def typed(self, k, t):
        v = self.raw(k)
        if v is not None and not (type(v) is t):
            raise ResponseError("WRONGTYPE Operation against a key holding the wrong kind of value")
        return v

    def drop(self, k):
        self.d.pop(k, None)
        self.exp.pop(k, None)

    def ensure(self, k, t):
        v = self.typed(k, t)
        if v is None:
            v = self.d[k] = t()
        return v

    def reap(self, k, v):
        if not v: self.drop(k)

    def sweep(self):
        for k in list(self.exp): self.raw(k)

    def call(self, name, *args):
        f = getattr(self, "c_" + name.decode().lower().replace(" ", "_"), None)
        if f is None: raise ResponseError(f"unknown command '{name.decode()}'")
        try:
            return f(*args)
        except TypeError as e:
            if "positional argument" in str(e):
                raise ResponseError(f"wrong number of arguments for '{name.decode().lower()}' command")
            raise

    # ---- generic
    def c_del(self, *ks):
        n = 0
        for k in ks:
            if self.raw(k) is not None:
                self.drop(k); self.W(k); n += 1
            else: self.R(k)
        return n
    c_unlink = c_del

    def c_exists(self, *ks):
        for k in ks: self.R(k, "exists")
        return sum(self.raw(k) is not None for k in ks)

    def c_keys(self, pat):
        self.sweep()
        return [k for k in self.d if glob_match(pat, k)]

    def c_type(self, k):
        self.R(k)
        v = self.raw(k)
        return Status({type(None): b"none", bytes: b"string", dict: b"hash", Set: b"set", ZSet: b"zset", list: b"list",
                       Stream: b"stream"}[type(v)])

    def c_ttl(self, k):
        self.R(k, "ttl")
        if self.raw(k) is None: return -2
        x = self.exp.get(k)
        return -1 if x is None else max(0, int(x - self.now() + 0.5))

    def c_pttl(self, k):
        self.R(k, "ttl")
        if self.raw(k) is None: return -2
        x = self.exp.get(k)
        return -1 if x is None else int((x - self.now()) * 1000)

    def _expire(self, k, secs, flags=()):
        if self.raw(k) is None:
            self.R(k, "exists")
            return 0
        cur = self.exp.get(k)
        new = self.now() + secs
        fl = {f.upper() for f in flags}
        if (b"NX" in fl and cur is not None) or (b"XX" in fl and cur is None) or \
           (b"GT" in fl and (cur is None or new <= cur)) or (b"LT" in fl and cur is not None and new >= cur):
            return 0
        if secs <= 0:
            self.drop(k); self.W(k)
        else:
            self.exp[k] = new; self.W(k, "ttl")
        return 1

    def c_expire(self, k, s, *f): return self._expire(k, integer(s), f)
    def c_pexpire(self, k, s, *f): return self._expire(k, integer(s) / 1000, f)
    def c_expireat(self, k, s, *f): return self._expire(k, integer(s) - self.now(), f)
    def c_pexpireat(self, k, s, *f): return self._expire(k, integer(s) / 1000 - self.now(), f)

    def c_persist(self, k):
        self.W(k, "ttl")
        return 1 if self.raw(k) is not None and self.exp.pop(k, None) is not None else 0

    def c_time(self):
        t = self.now()
        return [b"%d" % int(t), b"%d" % int((t % 1) * 1e6)]

    # ---- strings
    def c_get(self, k):
        self.R(k)
        return self.typed(k, bytes)

    def c_mget(self, *ks):
        for k in ks: self.R(k)
        return [v if isinstance(v := self.raw(k), bytes) else None for k in ks]

    def c_set(self, k, v, *opts):
        o = [x.upper() for x in opts]
        old = self.raw(k)
        ttl, keep = None, False
        i = 0
        nx = xx = get = False
        while i < len(o):
            if o[i] == b"NX": nx = True
            elif o[i] == b"XX": xx = True
            elif o[i] == b"GET": get = True
            elif o[i] == b"KEEPTTL": keep = True
            elif o[i] in (b"EX", b"PX", b"EXAT", b"PXAT"):
                n = integer(opts[i + 1])
                if n <= 0: raise ResponseError("invalid expire time in 'set' command")
                ttl = {b"EX": n, b"PX": n / 1000, b"EXAT": n - self.now(), b"PXAT": n / 1000 - self.now()}[o[i]]
                i += 1
            else: raise ResponseError("syntax error")
            i += 1
        if (nx and old is not None) or (xx and old is None):
            self.R(k)
            return old if get else None
        self.W(k)
        self.d[k] = v
        if ttl is not None: self.exp[k] = self.now() + ttl
        elif not keep: self.exp.pop(k, None)
        return old if get else OK

    def c_setex(self, k, t, v): return self.c_set(k, v, b"EX", t)
    def c_psetex(self, k, t, v): return self.c_set(k, v, b"PX", t)

    def c_setnx(self, k, v): return 1 if self.c_set(k, v, b"NX") else 0

    def c_incrby(self, k, n):
        v = integer(self.typed(k, bytes) or b"0") + integer(n)
        self.W(k)
        self.d[k] = b"%d" % v
        return v

    def c_incr(self, k): return self.c_incrby(k, b"1")
    def c_decr(self, k): return self.c_incrby(k, b"-1")

    # ---- hashes
    def c_hset(self, k, *fv):
        if not fv or len(fv) % 2: raise ResponseError("wrong number of arguments for 'hset' command")
        h = self.ensure(k, dict)
        n = 0
        for f, v in zip(fv[::2], fv[1::2]):
            n += f not in h
            h[f] = v
            self.W(k, f)
        return n

    def c_hmset(self, k, *fv):
        self.c_hset(k, *fv)
        return OK

    def c_hsetnx(self, k, f, v):
        if f in (self.typed(k, dict) or ()):
            self.R(k, f)
            return 0
        return self.c_hset(k, f, v)

    def c_hget(self, k, f):
        self.R(k, f)
        return (self.typed(k, dict) or {}).get(f)

    def c_hmget(self, k, *fs):
        return [self.c_hget(k, f) for f in fs]

    def c_hgetall(self, k):
        self.R(k)
        return [x for fv in (self.typed(k, dict) or {}).items() for x in fv]

    def c_hkeys(self, k):
        self.R(k)
        return list(self.typed(k, dict) or {})

    def c_hvals(self, k):
        self.R(k)
        return list((self.typed(k, dict) or {}).values())

    def c_hlen(self, k):
        self.R(k)
        return len(self.typed(k, dict) or {})

    def c_hexists(self, k, f):
        self.R(k, f)
        return int(f in (self.typed(k, dict) or {}))

    def c_hdel(self, k, *fs):
        h = self.typed(k, dict)
        n = 0
        for f in fs:
            if h and f in h:
                del h[f]; n += 1; self.W(k, f)
            else: self.R(k, f)
        if h is not None: self.reap(k, h)
        return n

    def c_hincrby(self, k, f, n):
        h = self.ensure(k, dict)
        v = integer(h.get(f, b"0")) + integer(n)
        h[f] = b"%d" % v
        self.W(k, f)
        return v

    def c_hincrbyfloat(self, k, f, n):
        h = self.ensure(k, dict)
        h[f] = fnum(num(h.get(f, b"0")) + num(n))
        self.W(k, f)
        return h[f]

    # ---- sets
    def c_sadd(self, k, *ms):
        s = self.ensure(k, Set)
        n = 0
        for m in ms:
            n += m not in s
            s[m] = 1
            self.W(k, m)
        self.reap(k, s)
        return n

    def c_srem(self, k, *ms):
        s = self.typed(k, Set)
        n = 0
        for m in ms:
            if s and m in s:
                del s[m]; n += 1; self.W(k, m)
            else: self.R(k, m)
        if s is not None: self.reap(k, s)
        return n

    def c_smembers(self, k):
        self.R(k)
        return list(self.typed(k, Set) or {})

    def c_scard(self, k):
        self.R(k)
        return len(self.typed(k, Set) or {})

    def c_sismember(self, k, m):
        self.R(k, m)
        return int(m in (self.typed(k, Set) or {}))

    # ---- sorted sets
    def _z(self, k):
        return self.typed(k, ZSet)

    @staticmethod
    def _zsorted(z):
        return sorted(z.items(), key=lambda ms: (ms[1], ms[0])) if z else []

    def c_zadd(self, k, *args):
        args = list(args)
        fl = set()
        while args and args[0].upper() in (b"NX", b"XX", b"GT", b"LT", b"CH", b"INCR"):
            fl.add(args.pop(0).upper())
        if not args or len(args) % 2: raise ResponseError("syntax error")
        pairs = [(num(s), m) for s, m in zip(args[::2], args[1::2])]
        z = self.ensure(k, ZSet)
        added = changed = 0
        res = None
        for s, m in pairs:
            old = z.get(m)
            if b"INCR" in fl: s = s + (old or 0)
            if (old is None and b"XX" in fl) or (old is not None and (b"NX" in fl or (b"GT" in fl and s <= old) or
                                                                      (b"LT" in fl and s >= old))):
                self.R(k, m)
                continue
            added += old is None
            changed += old is None or old != s
            z[m] = s
            res = s
            self.W(k, m)
        self.reap(k, z)
        if b"INCR" in fl: return None if res is None else fnum(res)
        return changed if b"CH" in fl else added

    def c_zincrby(self, k, n, m): return self.c_zadd(k, b"INCR", n, m)

    def c_zrem(self, k, *ms):
        z = self._z(k)
        n = 0
        for m in ms:
            if z and m in z:
                del z[m]; n += 1; self.W(k, m)
            else: self.R(k, m)
        if z is not None: self.reap(k, z)
        return n

    def c_zcard(self, k):
        self.R(k)
        return len(self._z(k) or ())

    def c_zscore(self, k, m):
        self.R(k, m)
        s = (self._z(k) or {}).get(m)
        return None if s is None else fnum(s)

    def c_zrank(self, k, m):
        self.R(k)
        l = [x for x, _ in self._zsorted(self._z(k))]
        return l.index(m) if m in l else None

    @staticmethod
    def _bound(b):
        if b[:1] == b"(": return num(b[1:]), True
        return num(b), False

    def _byscore(self, k, lo, hi):
        (l, le), (h, he) = self._bound(lo), self._bound(hi)
        self.R(k)
        return [(m, s) for m, s in self._zsorted(self._z(k)) if (s > l if le else s >= l) and (s < h if he else s <= h)]

    def c_zcount(self, k, lo, hi): return len(self._byscore(k, lo, hi))

    def c_zrangebyscore(self, k, lo, hi, *opts):
        r = self._byscore(k, lo, hi)
        ws = False
        i = 0
        while i < len(opts):
            o = opts[i].upper()
            if o == b"WITHSCORES": ws = True
            elif o == b"LIMIT":
                off, cnt = integer(opts[i + 1]), integer(opts[i + 2])
                r = r[off:] if cnt < 0 else r[off:off + cnt]
                i += 2
            else: raise ResponseError("syntax error")
            i += 1
        return [x for m, s in r for x in (m, fnum(s))] if ws else [m for m, _ in r]

    def c_zremrangebyscore(self, k, lo, hi):
        r = self._byscore(k, lo, hi)
        return self.c_zrem(k, *[m for m, _ in r]) if r else 0

    def c_zrange(self, k, a, b, *opts):
        o = [x.upper() for x in opts]
        if b"BYSCORE" in o:
            rest = [x for x in opts if x.upper() not in (b"BYSCORE", b"REV")]
            if b"REV" in o:
                r = self.c_zrangebyscore(k, b, a, *[x for x in rest])
                return r[::-1]
            return self.c_zrangebyscore(k, a, b, *rest)
        self.R(k)
        l = self._zsorted(self._z(k))
        if b"REV" in o: l = l[::-1]
        i, j = integer(a), integer(b)
        n = len(l)
        if i < 0: i = max(0, n + i)
        if j < 0: j = n + j
        l = l[i:j + 1]
        return [x for m, s in l for x in (m, fnum(s))] if b"WITHSCORES" in o else [m for m, _ in l]

    def c_zrevrange(self, k, a, b, *o): return self.c_zrange(k, a, b, b"REV", *o)

    def c_zpopmin(self, k, n=b"1"):
        l = self._zsorted(self._z(k))[:integer(n)]
        self.R(k)
        if l: self.c_zrem(k, *[m for m, _ in l])
        return [x for m, s in l for x in (m, fnum(s))]

    def c_zremrangebyrank(self, k, a, b):
        ms = self.c_zrange(k, a, b)
        return self.c_zrem(k, *ms) if ms else 0

    # ---- lists
    def _push(self, k, left, vs):
        l = self.ensure(k, list)
        self.W(k)
        for v in vs: l.insert(0, v) if left else l.append(v)
        return len(l)

    def c_lpush(self, k, *vs): return self._push(k, True, vs)
    def c_rpush(self, k, *vs): return self._push(k, False, vs)

    def _pop(self, k, left, n):
        l = self.typed(k, list)
        if not l:
            self.R(k)
            return None
        self.W(k)
        out = [l.pop(0 if left else -1) for _ in range(min(1 if n is None else integer(n), len(l)))]
        self.reap(k, l)
        return out[0] if n is None else out

    def c_lpop(self, k, n=None): return self._pop(k, True, n)
    def c_rpop(self, k, n=None): return self._pop(k, False, n)

    def c_llen(self, k):
        self.R(k)
        return len(self.typed(k, list) or ())

    def c_lrange(self, k, a, b):
        self.R(k)
        l = self.typed(k, list) or []
        i, j, n = integer(a), integer(b), len(l)
        if i < 0: i = max(0, n + i)
        if j < 0: j = n + j
        return l[i:j + 1]

    def c_lindex(self, k, i):
        self.R(k)
        l = self.typed(k, list) or []
        try: return l[integer(i)]
        except IndexError: return None

    def c_lset(self, k, i, v):
        l = self.typed(k, list)
        if l is None: raise ResponseError("no such key")
        self.W(k)
        try: l[integer(i)] = v
        except IndexError: raise ResponseError("index out of range")
        return OK

    def c_lrem(self, k, c, v):
        l = self.typed(k, list)
        if not l: return 0
        self.W(k)
        c = integer(c)
        idx = [i for i, x in enumerate(l) if x == v]
        if c: idx = idx[:c] if c > 0 else idx[c:]
        for i in reversed(idx): l.pop(i)
        self.reap(k, l)
        return len(idx)

    def c_ltrim(self, k, a, b):
        l = self.typed(k, list)
        self.W(k)
        if l is not None:
            l[:] = self.c_lrange(k, a, b)
            self.reap(k, l)
        return OK

    def c_lmove(self, a, b, src, dst):
        v = self._pop(a, src.upper() == b"LEFT", None)
        if v is not None: self._push(b, dst.upper() == b"LEFT", [v])
        return v

    def c_rpoplpush(self, a, b): return self.c_lmove(a, b, b"RIGHT", b"LEFT")

    # ---- streams
    def _parse_id(self, s, default_seq=0):
        if s == b"-": return (0, 0)
        if s == b"+": return (2 ** 64, 2 ** 64)
        try:
            a, _, b = s.partition(b"-")
            return (int(a), int(b) if b else default_seq)
        except ValueError:
            raise ResponseError("Invalid stream ID specified as stream command argument")

    def c_xadd(self, k, *args):
        args = list(args)
        maxlen = None
        mk = True
        while args and args[0].upper() in (b"MAXLEN", b"NOMKSTREAM", b"MINID", b"LIMIT"):
            o = args.pop(0).upper()
            if o == b"NOMKSTREAM": mk = False
            elif o == b"LIMIT": args.pop(0)
            else:
                approx = args[0] == b"~"
                if args[0] in (b"~", b"="): args.pop(0)
                v = args.pop(0)
                if o == b"MAXLEN" and not approx: maxlen = integer(v)
        ident = args.pop(0)
        if not args or len(args) % 2: raise ResponseError("wrong number of arguments for 'xadd' command")
        if self.typed(k, Stream) is None and not mk: return None
        s = self.ensure(k, Stream)
        if ident == b"*":
            ms = self.ms()
            i = (ms, 0) if ms > s.last[0] else (s.last[0], s.last[1] + 1)
        else:
            i = self._parse_id(ident)
            if i <= s.last:
                raise ResponseError("The ID specified in XADD is equal or smaller than the target stream top item")
        s.e[i] = list(args)
        s.last = i
        s.added += 1
        self.W(k, "tail")
        self.W(k, i)
        if maxlen is not None:
            while len(s.e) > maxlen:
                x = next(iter(s.e))
                del s.e[x]
                self.W(k, x)
        return sid(i)

    def c_xlen(self, k):
        self.R(k, "tail"); self.R(k, "len")
        s = self.typed(k, Stream)
        return len(s.e) if s else 0

    def c_xdel(self, k, *ids):
        s = self.typed(k, Stream)
        n = 0
        for i in ids:
            t = self._parse_id(i)
            if s and t in s.e:
                del s.e[t]; n += 1; self.W(k, t); self.W(k, "len")
            else: self.R(k, t)
        return n

    def c_xtrim(self, k, *args):
        a = list(args)
        how = a.pop(0).upper()
        approx = a[0] == b"~"
        if a[0] in (b"~", b"="): a.pop(0)
        v = a.pop(0)
        s = self.typed(k, Stream)
        if not s or approx: return 0
        n = 0
        lim = self._parse_id(v) if how == b"MINID" else None
        while s.e and ((len(s.e) > integer(v)) if how == b"MAXLEN" else next(iter(s.e)) < lim):
            x = next(iter(s.e))
            del s.e[x]
            n += 1
            self.W(k, x)
        self.W(k, "len") if n else self.R(k, "len")
        return n

    def c_xrange(self, k, lo, hi, *opts):
        self.R(k)
        s = self.typed(k, Stream)
        def bound(b, top):
            ex = b[:1] == b"("
            return self._parse_id(b[1:] if ex else b, 2 ** 64 if top else 0), ex
        (l, le), (h, he) = bound(lo, False), bound(hi, True)
        r = [[sid(i), list(f)] for i, f in (s.e.items() if s else ()) if (i > l if le else i >= l) and (i < h if he else i <= h)]
        return r[:integer(opts[1])] if opts else r

    def c_xrevrange(self, k, hi, lo, *opts):
        r = self.c_xrange(k, lo, hi)[::-1]
        return r[:integer(opts[1])] if opts else r

    def _xopts(self, args):
        a = list(args)
        count = block = None
        noack = False
        while True:
            o = a.pop(0).upper()
            if o == b"COUNT": count = integer(a.pop(0))
            elif o == b"BLOCK": block = integer(a.pop(0))
            elif o == b"NOACK": noack = True
            elif o == b"STREAMS": break
            else: raise ResponseError("syntax error")
        n = len(a) // 2
        return count, block, noack, list(zip(a[:n], a[n:]))

    def c_xread(self, *args):
        count, block, _, streams = self._xopts(args)
        out = []
        for k, i in streams:
            s = self.typed(k, Stream)
            self.R(k, "tail")
            t = (s.last if s else (0, 0)) if i == b"$" else self._parse_id(i)
            r = [[sid(x), list(f)] for x, f in (s.e.items() if s else ()) if x > t]
            if count: r = r[:count]
            if r: out.append([k, r])
        return out or None

    def _group(self, k, g, cmd):
        s = self.typed(k, Stream)
        if s is None or g not in s.groups:
            self.R(k, "groups")
            raise ResponseError(f"NOGROUP No such key '{k.decode()}' or consumer group '{g.decode()}' in {cmd}")
        return s, s.groups[g]

    def c_xreadgroup(self, _g, g, c, *args):
        count, block, noack, streams = self._xopts(args)
        out = []
        now = self.ms()
        for k, i in streams:
            s, grp = self._group(k, g, "XREADGROUP with GROUP option")
            grp.consumers.setdefault(c, now)
            grp.consumers[c] = now
            if i == b">":
                self.R(k, "tail")
                r = []
                for x, f in s.e.items():
                    if x > grp.last:
                        r.append([sid(x), list(f)])
                        if count and len(r) >= count: break
                if r:
                    self.W(k, "cursor")
                    for x, _ in r:
                        t = self._parse_id(x)
                        self.R(k, t)
                        grp.last = t
                        grp.read += 1
                        if not noack:
                            grp.pel[t] = [c, now, 1]
                            self.W(k, ("pel", t))
                    out.append([k, r])
                else: self.R(k, "cursor")
            else:
                t = self._parse_id(i)
                r = [[sid(x), list(s.e[x]) if x in s.e else None] for x in sorted(grp.pel) if x > t and grp.pel[x][0] == c]
                self.R(k, "pel")
                out.append([k, r[:count] if count else r])
        return out or None

    def c_xack(self, k, g, *ids):
        s = self.typed(k, Stream)
        grp = s.groups.get(g) if s else None
        n = 0
        for i in ids:
            t = self._parse_id(i)
            if grp and t in grp.pel:
                del grp.pel[t]; n += 1; self.W(k, ("pel", t)); self.W(k, "pel")
            else: self.R(k, ("pel", t))
        return n

    def c_xclaim(self, k, g, c, min_idle, *args):
        s, grp = self._group(k, g, "XCLAIM")
        ids, a = [], list(args)
        while a and re.match(rb"\d", a[0]): ids.append(self._parse_id(a.pop(0)))
        idle = time = retry = None
        force = justid = False
        while a:
            o = a.pop(0).upper()
            if o == b"IDLE": idle = integer(a.pop(0))
            elif o == b"TIME": time = integer(a.pop(0))
            elif o == b"RETRYCOUNT": retry = integer(a.pop(0))
            elif o == b"FORCE": force = True
            elif o == b"JUSTID": justid = True
            else: raise ResponseError("syntax error")
        now = self.ms()
        grp.consumers[c] = now
        out = []
        for t in ids:
            p = grp.pel.get(t)
            if p is None:
                self.R(k, ("pel", t))
                if not (force and t in s.e): continue
                p = grp.pel[t] = [c, 0, 0]
            if t not in s.e:
                del grp.pel[t]
                self.W(k, ("pel", t))
                continue
            if now - p[1] < integer(min_idle):
                self.R(k, ("pel", t))
                continue
            grp.pel[t] = [c, now - idle if idle is not None else (time if time is not None else now),
                          retry if retry is not None else p[2] + (0 if justid else 1)]
            self.W(k, ("pel", t))
            out.append(sid(t) if justid else [sid(t), list(s.e[t])])
        return out

    def c_xautoclaim(self, k, g, c, min_idle, start, *opts):
        s, grp = self._group(k, g, "XAUTOCLAIM")
        count, justid = 100, False
        a = list(opts)
        while a:
            o = a.pop(0).upper()
            if o == b"COUNT": count = integer(a.pop(0))
            elif o == b"JUSTID": justid = True
        if count <= 0: raise ResponseError("COUNT must be > 0")
        now = self.ms()
        grp.consumers[c] = now
        out, deleted = [], []
        st = self._parse_id(start)
        nxt = (0, 0)
        attempts = count * 10
        for t in sorted(grp.pel):
            if t < st: continue
            if len(out) + len(deleted) >= count or attempts <= 0:
                nxt = t
                break
            attempts -= 1
            p = grp.pel[t]
            if t not in s.e:
                del grp.pel[t]
                self.W(k, ("pel", t))
                deleted.append(sid(t))
                continue
            self.R(k, ("pel", t))
            if now - p[1] < integer(min_idle): continue
            grp.pel[t] = [c, now, p[2] + (0 if justid else 1)]
            self.W(k, ("pel", t))
            out.append(sid(t) if justid else [sid(t), list(s.e[t])])
        return [sid(nxt), out, deleted]

    def c_xpending(self, k, g, *args):
        s, grp = self._group(k, g, "XPENDING")
        self.R(k, "pel")
        for t in grp.pel: self.R(k, ("pel", t))
        if not args:
            if not grp.pel: return [0, None, None, None]
            cs = {}
            for c, _, _ in grp.pel.values(): cs[c] = cs.get(c, 0) + 1
            return [len(grp.pel), sid(min(grp.pel)), sid(max(grp.pel)), [[c, b"%d" % n] for c, n in sorted(cs.items())]]
        a = list(args)
        idle = 0
        if a[0].upper() == b"IDLE":
            a.pop(0)
            idle = integer(a.pop(0))
        lo, hi = self._parse_id(a[0]), self._parse_id(a[1], 2 ** 64)
        now = self.ms()
        r = [[sid(t), p[0], now - p[1], p[2]] for t, p in sorted(grp.pel.items())
             if lo <= t <= hi and now - p[1] >= idle and (len(a) < 4 or p[0] == a[3])]
        return r[:integer(a[2])]

    def c_xgroup_create(self, k, g, i, *opts):
        s = self.typed(k, Stream)
        if s is None:
            if not any(o.upper() == b"MKSTREAM" for o in opts):
                raise ResponseError("The XGROUP subcommand requires the key to exist.")
            s = self.ensure(k, Stream)
            self.W(k, "groups")
        if g in s.groups:
            self.R(k, "groups")
            raise ResponseError("BUSYGROUP Consumer Group name already exists")
        s.groups[g] = Group(s.last if i == b"$" else self._parse_id(i))
        self.W(k, "groups")
        return OK

    def c_xgroup_destroy(self, k, g):
        s = self.typed(k, Stream)
        self.W(k, "groups")
        return int(bool(s and s.groups.pop(g, None)))

    def c_xgroup_delconsumer(self, k, g, c):
        s, grp = self._group(k, g, "XGROUP")
        p = [t for t, x in grp.pel.items() if x[0] == c]
        for t in p: del grp.pel[t]
        grp.consumers.pop(c, None)
        self.W(k, "pel")
        return len(p)

    def c_xinfo_groups(self, k):
        s = self.typed(k, Stream)
        if s is None: raise ResponseError("no such key")
        self.R(k)
        return [[b"name", g, b"consumers", len(x.consumers), b"pending", len(x.pel), b"last-delivered-id", sid(x.last),
                 b"entries-read", x.read, b"lag", sum(1 for i in s.e if i > x.last)] for g, x in s.groups.items()]

    def c_xinfo_consumers(self, k, g):
        s, grp = self._group(k, g, "XINFO")
        self.R(k)
        now = self.ms()
        return [[b"name", c, b"pending", sum(1 for p in grp.pel.values() if p[0] == c), b"idle", now - t]
                for c, t in grp.consumers.items()]

    def c_xinfo_stream(self, k):
        s = self.typed(k, Stream)
        if s is None: raise ResponseError("no such key")
        self.R(k)
        l = list(s.e.items())
        ent = lambda x: [sid(x[0]), list(x[1])]
        return [b"length", len(s.e), b"last-generated-id", sid(s.last), b"entries-added", s.added, b"groups", len(s.groups),
                b"first-entry", ent(l[0]) if l else None, b"last-entry", ent(l[-1]) if l else None]

    # ---- pub/sub
    def c_publish(self, ch, msg):
        n = 0
        self.W(b"\0chan:" + ch)
        self.msgs += 1
        for p in list(self.subs):
            n += p._deliver(ch, msg)
        return n

    # ---- scripts
    def c_script_load(self, src):
        h = hashlib.sha1(src).hexdigest().encode()
        if h not in self.scripts:
            lua.compile_lua(src)
            self.scripts[h] = src
        return h

    def c_script_exists(self, *hs): return [int(h.lower() in self.scripts) for h in hs]

    def c_eval(self, src, n, *rest):
        self.c_script_load(src)
        return self._run(src, n, rest)

    def c_evalsha(self, h, n, *rest):
        src = self.scripts.get(h.lower())
        if src is None: raise NoScriptError("No matching script. Please use EVAL.")
        return self._run(src, n, rest)

    def _run(self, src, n, rest):
        n = integer(n)
        fn = lua.compile_lua(src)
        env = lua.base_env()
        env["KEYS"] = lua.Table(rest[:n])
        env["ARGV"] = lua.Table(rest[n:])
        env["redis"] = lua._lib({b"call": self._lcall, b"pcall": self._lpcall,
                                 b"error_reply": lambda m: [lua._table([], [(b"err", m)])],
                                 b"status_reply": lambda m: [lua._table([], [(b"ok", m)])],
                                 b"sha1hex": lambda s: [hashlib.sha1(s).hexdigest().encode()],
                                 b"log": lambda *a: [], b"replicate_commands": lambda *a: [True],
                                 b"LOG_WARNING": 3, b"LOG_NOTICE": 2})
        try:
            r = fn(env)
        except lua.LuaError as e:
            v = e.value
            if isinstance(v, lua.Table): v = v.get(b"err")
            raise ResponseError((lua._tostring(v)[0]).decode("utf-8", "replace"))
        return self.from_lua(r[0] if r else None)

    def _lcall(self, name, *args):
        raw = []
        for a in args:
            if isinstance(a, bytes): raw.append(a)
            elif isinstance(a, (int, float)) and not isinstance(a, bool):
                raw.append(b"%d" % int(a) if a == int(a) and abs(a) < 2 ** 63 else repr(float(a)).encode())
            else:
                raise lua.LuaError(lua._table([], [(b"err", b"Lua redis lib command arguments must be strings or integers")]))
        try:
            n = name.upper()
            if n in (b"XGROUP", b"XINFO", b"SCRIPT"):
                return [self.to_lua(self.call(n + b" " + raw[0], *raw[1:]))]
            return [self.to_lua(self.call(n, *raw))]
        except ResponseError as e:
            raise lua.LuaError(lua._table([], [(b"err", str(e).encode())]))

    def _lpcall(self, name, *args):
        try:
            return self._lcall(name, *args)
        except lua.LuaError as e:
            return [e.value]

    def to_lua(self, v):
        if v is None: return False
        if isinstance(v, Status): return lua._table([], [(b"ok", bytes(v))])
        if isinstance(v, list): return lua.Table([self.to_lua(x) for x in v])
        return v

    def from_lua(self, v):
        if v is None or v is False: return None
        if v is True: return 1
        if isinstance(v, (int, float)): return int(v)
        if isinstance(v, bytes): return v
        if isinstance(v, lua.Table):
            if (e := v.get(b"err")) is not None: raise ResponseError(e.decode())
            if (o := v.get(b"ok")) is not None: return Status(o)
            out = []
            for x in v.a:
                if x is None: break
                out.append(self.from_lua(x))
            return out
        raise ResponseError("unsupported Lua return value")


class Set(dict):
    pass


class ZSet(dict):
    pass


def conflicts(a, b):
    """Whether two access lists conflict."""
    idx = {}
    for k, s, w in a:
        idx.setdefault(k, []).append((s, w))
    for k, s, w in b:
        for s2, w2 in idx.get(k, ()):
            if (w or w2) and (s == s2 or s == "*" or s2 == "*" or (s == "exists" and w2) or (s2 == "exists" and w)):
                return True
    return False
