"""Bounded exhaustive exploration: every placement of up to `depth` deviations in a scenario's window, level by level."""
import ast, gc, hashlib, json, multiprocessing, os, signal, sys, time, traceback
from . import sim, vtime
from .store import conflicts

RAW = time.CLOCK_MONOTONIC_RAW


def clock(): return time.clock_gettime(RAW)


class Hang(KeyboardInterrupt): pass        # of the kind an event loop lets through


def _alarm(*a): raise Hang()


def label(op):
    c = op.cmds[0] if op.cmds else ()
    n = op.name
    if n == "evalsha": n += c[1][:8].decode()
    return n


def signature(env):
    h = hashlib.blake2b(digest_size=12)
    keys, procs = {}, {}
    for op in env.ops:
        l = label(op)
        procs.setdefault(op.proc, []).append(l)
        seen = {}
        for k, s, w in op.acc: seen[k] = seen.get(k, False) or w
        for k, w in seen.items():
            keys.setdefault(k, []).append((op.proc, l, w))
    for k in sorted(keys):
        h.update(repr(k).encode())
        reads = []
        for p, l, w in keys[k]:
            if w:
                h.update(repr((sorted(reads), p, l)).encode())
                reads = []
            else: reads.append((p, l))
        h.update(repr(sorted(reads)).encode())
    for p in sorted(procs): h.update(repr((p, procs[p])).encode())
    h.update(repr([e[1:] for e in env.events]).encode())
    h.update(env.status.encode())
    return h.digest()


class Bounds:
    """kinds: {kind: max count}; depth: max deviations; m: max race-reversal distance per operation."""

    def __init__(self, depth=1, m=3, lm=3, stalls=(), **kinds):
        self.depth, self.kinds, self.m, self.lm, self.stalls = depth, kinds, m, lm, stalls

    def describe(self):
        return f"up to {self.depth} deviations of {self.kinds}, reversal distance <= {self.m}"


def children(env, devs, b):
    last = devs[-1]["at"] if devs else -1
    used = {}
    for d in devs: used[d["k"]] = used.get(d["k"], 0) + 1
    ok = {k for k, n in b.kinds.items() if used.get(k, 0) < n}
    sc = env.sc
    out = []
    ops = env.ops
    lim = int(env.hold_limit * 1e9)
    keys = [None] * len(ops)
    for pos, op in enumerate(ops):
        if not op.script or op.idx < last: continue
        if not sc.allow(op, env): continue
        i = op.idx
        wrote = any(w for _, _, w in op.acc)
        if i == last and devs:
            # something happens between the operation and its late reply
            if devs[-1]["k"] == "late" and "inject" in ok and (wrote or sc.inject_after_reads) and sc.allow_inject(op, env):
                for w in sc.injections(): out.append({"k": "inject", "at": i, "w": w})
            continue
        if "hold" in ok and sc.allow_hold(op, env):
            acc = sorted(set(op.acc), key=repr)
            n = 0
            mine = {k for k, _, _ in acc}
            for q in range(pos + 1, len(ops)):
                o2 = ops[q]
                if o2.t - op.t > lim: break
                if o2.task == op.task: continue
                if keys[q] is None: keys[q] = {k for k, _, _ in o2.acc}
                if not mine.isdisjoint(keys[q]) and conflicts(acc, o2.acc):
                    n += 1
                    out.append({"k": "hold", "at": i, "m": n, "acc": acc})
                    if n >= b.m: break
        if "stall" in ok and sc.allow_hold(op, env):
            for s in b.stalls: out.append({"k": "stall", "at": i, "s": s})
        if "late" in ok:
            for m in range(1, b.lm + 1): out.append({"k": "late", "at": i, "m": m})
        if "crash" in ok and sc.allow_crash(op, env):
            # a crash before an operation equals one after the previous visible operation of the process, so only
            # the first operation needs "before"; reads change nothing another process can see
            out.append({"k": "crash", "at": i, "w": "before"})
            if wrote: out.append({"k": "crash", "at": i, "w": "after"})
        if "err" in ok and sc.allow_err(op, env):
            out.append({"k": "err", "at": i, "w": "before"})
            if wrote: out.append({"k": "err", "at": i, "w": "after"})
        if "inject" in ok and (wrote or sc.inject_after_reads) and sc.allow_inject(op, env):
            for w in sc.injections(): out.append({"k": "inject", "at": i, "w": w})
    return out


def execute(sc, devs, b, expand, timeout=40):
    """One run: (status, violations, signature, children, ops, coverage)."""
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, timeout)
    try:
        try:
            env = sim.run(sc, devs)
        except Hang:
            vtime.off()
            return "hang", [("hang", "the run did not finish in %d s of processor time (busy loop)" % timeout)], b"hang", [], 0, None
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except Hang:
        vtime.off()
        return "hang", [], b"hang2", [], 0, None
    v = judge(sc, env)
    sig = signature(env)
    ch = children(env, devs, b) if expand else []
    n = len(env.ops)
    cov = sc.covered(env)
    st2 = sc.counts(env)
    unapplied = env.ndev - env.applied
    sim.dispose(env)
    return env.status, v, sig, ch, n + st2[1], (cov, unapplied, st2[0])


def judge(sc, env):
    if env.status != "ok" and not sc.tolerates(env):
        detail = ""
        if env.error is not None:
            detail = "".join(traceback.format_exception_only(type(env.error), env.error)).strip()
        return [(f"run-{env.status}", f"the run ended with {env.status} {detail}")]
    try:
        return list(sc.check(env))
    except Exception as e:
        return [("oracle-error", "".join(traceback.format_exc()))]


_SC = []
_B = []


def _job(j):
    i, devs, expand = j
    try:
        return execute(_SC[i], devs, _B[i], expand)
    except BaseException:
        return "harness", [("harness-error", traceback.format_exc())], b"", [], 0, None


def warm(scs):
    """Learn the Lua scripts, so that loading them is not part of any window, and check that a run is reproducible."""
    done = {}
    for sc in scs:
        if done.get(type(sc), 0) >= sc.warm_runs: continue
        done[type(sc)] = done.get(type(sc), 0) + 1
        signal.signal(signal.SIGPROF, _alarm)
        signal.setitimer(signal.ITIMER_PROF, 40)
        try:
            env = sim.run(sc)
        except Hang:
            vtime.off()
            continue            # reported by the default run below
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        sim.PRELOADED.update(env.store.scripts)
        sim.dispose(env)
    gc.collect()


def explore(work, procs=8, budget=600, known=lambda sc, key: False):
    """work: list of (scenario, Bounds).  Returns a report dict; violations are (scenario index, devs, key, text)."""
    global _SC, _B
    t0 = clock()
    _SC = [w[0] for w in work]
    _B = [w[1] for w in work]
    # warm-up failures (e.g. a deadlock in the default schedule) are reported by the depth-0 run below
    warm(_SC)
    rep = {"runs": 0, "transitions": 0, "distinct": 0, "levels": {}, "violations": [], "exhaustive": True, "per": {}, "cov": {},
           "pruned": 0, "states": 0, "sample_devs": [], "unapplied": 0, "statuses": {}}
    seen = [set() for _ in work]
    level = [(i, [], _B[i].depth > 0) for i in range(len(work))]
    # determinism: the default run of every scenario, twice
    done = {}
    for i, sc in enumerate(_SC):
        if done.get(type(sc), 0) >= 2: continue
        done[type(sc)] = done.get(type(sc), 0) + 1
        a = _job((i, [], False))
        b = _job((i, [], False))
        if a[2] != b[2]: raise sim.Divergence(f"scenario {sc.name}: two default runs differ")
    vkeys = {}
    stop = False
    depth = 0
    ctx = multiprocessing.get_context("fork")
    gc.collect()
    gc.freeze()
    with ctx.Pool(procs, maxtasksperchild=400) as pool:
        while level:
            nxt = []
            rep["levels"][str(depth)] = len(level)
            cut = False
            for (i, devs, ex), r in zip(level, pool.imap(_job, level, chunksize=max(1, min(8, len(level) // (procs * 4) or 1)))):
                st, v, sig, ch, n, cov = r
                rep["runs"] += 1
                rep["transitions"] += n
                rep["statuses"][st] = rep["statuses"].get(st, 0) + 1
                per = rep["per"].setdefault(_SC[i].name, {"runs": 0, "distinct": 0})
                per["runs"] += 1
                if cov:
                    for k in cov[0]: rep["cov"][k] = rep["cov"].get(k, 0) + 1
                    rep["unapplied"] += cov[1] > 0
                    rep["states"] += cov[2]
                fresh = False
                if len(rep["sample_devs"]) < 3 and devs and rep["runs"] % 7 == 3: rep["sample_devs"].append((i, devs))
                for key, text in v:
                    k = (i, key)
                    if not known(_SC[i], key): fresh = stop = True
                    if vkeys.get(k, 0) < 3:
                        vkeys[k] = vkeys.get(k, 0) + 1
                        rep["violations"].append((i, devs, key, text))
                if sig in seen[i]:
                    rep["pruned"] += 1
                else:
                    seen[i].add(sig)
                    per["distinct"] += 1
                    if ex and not fresh:
                        for c in ch:
                            d2 = devs + [c]
                            nxt.append((i, d2, len(d2) < _B[i].depth))
                if clock() - t0 > budget:
                    cut = True
                    break
            if cut:
                rep["exhaustive"] = False
                pool.terminate()
                break
            level = nxt
            depth += 1
            if stop: break
    rep["distinct"] = sum(len(s) for s in seen)
    rep["wall"] = clock() - t0
    return rep


def confirm(sc, devs, key, b):
    """Whether the violation recurs when the run is repeated (twice)."""
    for _ in range(2):
        st, v, *_ = execute(sc, devs, b, False)
        if key not in [k for k, _ in v]: return False
    return True
