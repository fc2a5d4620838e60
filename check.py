#!/usr/bin/env python3
"""check.py ID [quick|thorough]   decide one property;   check.py --replay FILE   re-run a recorded violation."""
import ast, importlib, json, os, re, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from mc import vtime
vtime.ensure()
from mc import explore as X, sim, conform                      # noqa: E402
from mc.world import evs                                       # noqa: E402


def load(pid): return importlib.import_module("props." + pid.lower())


def known(pid):
    try:
        data = json.load(open(os.path.join(ROOT, "known_findings.json")))
    except FileNotFoundError:
        return []
    return [f for f in data.get("findings", []) if f["property"] == pid]


def matches(f, sc, key):
    return re.fullmatch(f["scenario"], sc) is not None and re.fullmatch(f["key"], key) is not None


def show(devs):
    out = []
    for d in devs:
        e = {k: v for k, v in d.items() if k != "acc"}
        if "acc" in d: e["on"] = sorted({k.decode("utf-8", "replace") for k, _, _ in d["acc"]})[:6]
        out.append(e)
    return out


def main():
    if sys.argv[1] == "--replay": return replay(sys.argv[2])
    pid = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = X.clock()
    mod = load(pid)
    work = mod.work(tier)
    only = os.environ.get("MC_ONLY")
    if only: work = [w for w in work if re.search(only, w[0].name)]
    kf = known(pid)
    budget = float(os.environ.get("MC_BUDGET", "600" if tier == "quick" else "800"))
    rep = X.explore(work, procs=int(os.environ.get("MC_PROCS", "8")), budget=budget,
                    known=lambda sc, key: any(matches(f, sc.name, key) for f in kf))
    # conformance of the store model on the default schedule of (up to 12) scenarios
    traces, samples, seen_cls = [], [], {}
    for sc, b in work:
        if seen_cls.get(type(sc), 0) >= min(4, sc.warm_runs + 1) or sc.warm_runs == 0 or len(traces) >= 12: continue
        seen_cls[type(sc)] = seen_cls.get(type(sc), 0) + 1
        env = sim.run(sc, record=True)
        if env.record: traces.append(env.record[:1500])
        if len(samples) < 3:
            samples.append({"scenario": sc.name, "deviations": [], "operations": len(env.ops),
                            "history": [list(map(str, e)) for e in env.events[:14]]})
        sim.dispose(env)
    validated, vops, mism = conform.validate(traces, sim.PRELOADED.values()) if traces else (0, 0, [])
    for i, devs in rep.get("sample_devs", [])[:3]: samples.append({"scenario": work[i][0].name, "deviations": show(devs)})
    found, listed = [], {}
    for i, devs, key, text in rep["violations"]:
        sc, b = work[i]
        hit = next((f for f in kf if matches(f, sc.name, key)), None)
        if hit is not None:
            listed[hit["id"]] = hit
            continue
        found.append((i, devs, key, text))
    real, shaky = [], 0
    for i, devs, key, text in found[:int(os.environ.get("MC_SHOW", 6))]:
        sc, b = work[i]
        if key in ("hang", "harness-error") or X.confirm(sc, devs, key, b): real.append((sc, devs, key, text))
        else: shaky += 1
    cov = {"states": rep["distinct"] + rep["states"], "transitions": rep["transitions"],
           "traces_validated_against_impl": validated, "executions": rep["runs"], "operations_conformed": vops,
           "executions_per_depth": rep["levels"], "scenarios": len(work), "exhaustive": rep["exhaustive"],
           "equivalent_executions_pruned": rep["pruned"], "run_endings": rep["statuses"], "situations_reached": rep["cov"],
           "bounds": sorted({b.describe() for _, b in work}),
           "rule": getattr(mod, "RULE", "every placement of the stated deviations at every operation of the window; states are "
                                        "distinct histories (per-key access order, per-process order and observed events)"),
           "samples": samples}
    if mism: cov["conformance_mismatches"] = mism[:5]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []) + BASE_ASSUMPTIONS, "wall_s": round(X.clock() - t0, 1),
          "violations": len(real)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
    for f in listed.values(): print(f"KNOWN-FINDING: property={pid} {f['what']}")
    print(f"{pid} {tier}: {rep['runs']} executions, {cov['states']} states, {rep['transitions']} operations, levels {rep['levels']}, "
          f"exhaustive={rep['exhaustive']}, {validated}/{len(traces)} traces conform ({vops} ops), {ev['wall_s']} s")
    for m in mism[:5]: print("  conformance mismatch:", m)
    if os.environ.get("MC_VERBOSE"):
        for n, p in rep["per"].items(): print("  ", n, p)
        print("   cov", rep["cov"], "statuses", rep["statuses"], "unapplied", rep["unapplied"])
    if shaky: print(f"  {shaky} violation(s) did not recur and were dropped")
    if not real: return 0
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    for n, (sc, devs, key, text) in enumerate(real):
        path = os.path.join(ROOT, "replays", f"{pid}-{n}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "tier": tier, "scenario": sc.name, "devs": repr(devs), "key": key, "text": text,
                       "deviations": show(devs)}, f, indent=1)
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  scenario {sc.name}; deviations {show(devs)}")
        print("  " + text.replace("\n", "\n  "))
    return 1


BASE_ASSUMPTIONS = [
    "Redis executes one command, pipeline or script at a time (replies are replayed against the real in-memory backend)",
    "a process' tasks are interleaved by a FIFO event loop; operations are delayed, failed or cut off as the deviations say",
]


def replay(path):
    r = json.load(open(path))
    mod = load(r["property"])
    sc, b = next(w for w in mod.work(r["tier"]) if w[0].name == r["scenario"])
    X.warm([s for s, _ in mod.work(r["tier"]) if re.search(os.environ.get("MC_ONLY", ""), s.name)])
    devs = ast.literal_eval(r["devs"])
    env = sim.run(sc, devs)
    at = {d["at"]: d for d in devs}
    for o in env.ops:
        if os.environ.get("MC_OPS") or o.idx in at:
            print(f"  {o.t / 1e9:.6f} #{o.idx} {o.proc} task{o.task} {X.label(o)} "
                  f"{[c[:1] + c[1:7] if not o.name.startswith('ev') else c[2:] for c in o.cmds]!r:.200} {o.state}")
    for e in env.events: print("  ", e)
    for key, text in X.judge(sc, env): print("violation", key, text)
    return 0


if __name__ == "__main__": sys.exit(main())
