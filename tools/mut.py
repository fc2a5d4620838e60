"""mut.py BATCH.py [REGEX]: plant each of the batch's bugs in a scratch copy of /repo's sources and run the quick check(s) of its properties.
Batch: m(name, "C05 C06", [(file, old, new)…]).  With MUT_TESTS=1 also runs the stable tests for those not caught."""
import os, re, shutil, subprocess, sys, tempfile
pick = re.compile(sys.argv[2] if len(sys.argv) > 2 else ".")
total = [0, 0]


def m(name, props, edits):
    if not edits: return
    if not pick.search(name): return
    w = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        subprocess.check_call(["cp", "-a", os.environ.get("MUT_REPO", "/repo"), w + "/repo"])
        for f, old, new in edits:
            p = f"{w}/repo/src/docket/{f}"
            s = open(p).read()
            if s.count(old) != 1: print(f"{name}: {f}: {s.count(old)} matches of {old[:60]!r}", flush=True); return
            open(p, "w").write(s.replace(old, new))
        total[1] += 1
        caught = []
        for c in props.split():
            r = subprocess.run(["timeout", "900", "/opt/venv/bin/python", "check.py", c, "quick"], cwd="/verif", env={**os.environ, "MC_REPO_SRC": w + "/repo/src", "MC_SCRATCH": w}, capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            if r.returncode == 1 and v: caught.append(c)
            elif r.returncode: print(f"{name} {c}: exit {r.returncode} {r.stdout[-200:]} {r.stderr[-300:]}", flush=True)
            if caught: break
        extra = ""
        if os.environ.get("MUT_TESTS") and (not caught or os.environ["MUT_TESTS"] == "2"):
            t = subprocess.run(["bash", "/verif/tools/rtests.sh", w + "/repo"], capture_output=True, text=True)
            extra = " tests: " + t.stdout.strip().splitlines()[-1][-150:]
        total[0] += bool(caught)
        print(f"{name}: {'caught by ' + caught[0] if caught else 'MISSED by ' + props}{extra}", flush=True)
    finally:
        shutil.rmtree(w)


exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
print(total[0], "of", total[1], "caught")
