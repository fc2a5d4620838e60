"""Conformance of the Redis data model: replay recorded operation traces against the real in-memory backend.

`python -m mc.conform FILE` reads pickled traces [(ns, calls, results, pipelined)] and compares every reply.
"""
import asyncio, os, pickle, subprocess, sys, tempfile


def validate(traces, scripts=()):
    """Replay each trace on a fresh real burner_redis under the same virtual clock; (validated, operations, mismatches)."""
    with tempfile.NamedTemporaryFile(suffix=".pkl", delete=False) as f:
        pickle.dump((traces, list(scripts)), f)
    try:
        env = dict(os.environ)
        p = subprocess.run([sys.executable, "-m", "mc.conform", f.name], capture_output=True, timeout=300, env=env,
                           cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        if p.returncode != 0: return 0, 0, ["conformance replay failed: " + p.stderr.decode()[-2000:]]
        return pickle.loads(p.stdout)
    finally:
        os.unlink(f.name)


SKIP = {"publish"}      # its reply counts the subscribers, which the replay does not re-create


def norm(name, v):
    if isinstance(v, (list, tuple)): return [norm(name, x) for x in v]
    if isinstance(v, dict): return {(k.encode() if isinstance(k, str) else k): norm(name, x) for k, x in v.items()}
    if isinstance(v, set): return sorted(v)
    if isinstance(v, str): return v.encode()
    if isinstance(v, bool): return int(v)
    return v


async def replay(tr, base, mono, scripts=()):
    from . import vtime
    from burner_redis import BurnerRedis
    c = BurnerRedis()
    for x in scripts: await c.script_load(x.decode())
    bad, n = [], 0
    for i, (ns, calls, results, pipe) in enumerate(tr):
        vtime.set_ns(base + ns, mono + ns)
        got = []
        if pipe:
            p = c.pipeline()
            for name, a, kw in calls: getattr(p, name)(*a, **kw)
            got = [("error", str(x)) if isinstance(x, Exception) else ("ok", x) for x in await p.execute(raise_on_error=False)]
        else:
            name, a, kw = calls[0]
            kw = dict(kw)
            kw.pop("block", None)
            if name in ("xread", "xreadgroup"): pass
            try:
                got = [("ok", await getattr(c, name)(*a, **kw))]
            except Exception as e:
                got = [("error", str(e))]
        for (name, a, kw), g, w in zip(calls, got, results):
            n += 1
            if name in SKIP: continue
            if g[0] == w[0] == "error": continue
            if name in ("xread", "xreadgroup") and not g[1] and not w[1]: continue
            if name == "xinfo_consumers" or name == "ttl": continue
            if name == "xautoclaim" and g[0] == w[0] == "ok":
                g, w = ("ok", list(g[1])[:2]), ("ok", list(w[1])[:2])
            gn, wn = norm(name, g[1]), norm(name, w[1])
            if name == "xpending_range" and g[0] == w[0] == "ok":        # the idle time is subject to rounding
                same = len(gn) == len(wn) and all(abs(x.pop(b"time_since_delivered", 0) - y.pop(b"time_since_delivered", 0)) <= 1 for x, y in zip(gn, wn))
                if not same: gn = None
            if name in ("keys", "smembers", "hvals"): gn, wn = sorted(gn), sorted(wn)
            if g[0] != w[0] or gn != wn:
                bad.append(f"op {i} {name}{str(a)[:300]}: real {g!r:.300} model {w!r:.300}")
    vtime.off()
    await c.aclose()
    return n, bad


def main():
    from . import vtime
    from .sim import BASE, MONO
    traces, scripts = pickle.load(open(sys.argv[1], "rb"))
    ok, ops, bad = 0, 0, []
    for t in traces:
        n, b = asyncio.run(replay(t, BASE, MONO, scripts))
        ops += n
        if b: bad += b
        else: ok += 1
    sys.stdout.buffer.write(pickle.dumps((ok, ops, bad)))
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__": main()
