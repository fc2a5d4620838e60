#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the modules in props/."""
import json, os, re
ROOT = os.path.dirname(os.path.abspath(__file__))
NA = {}
TECH = "stateless model checking of the implementation: exhaustive bounded exploration of schedules and faults under a controlled event loop"
NOTE = ("Runs the real code on a controlled event loop, virtual clock and Redis model (model replies replayed against the real "
        "in-memory backend on every run); exhaustive within the deviation bounds recorded in the evidence, nothing beyond them.")
checks, na = [], []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)
    f = os.path.join(ROOT, "props", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": NA.get(p["id"], "its exploration is not built yet")})
        continue
    src = open(f).read()
    g = lambda n, d: (lambda m: eval(m.group(1)) if m else d)(re.search(rf'^{n} = (\(.*?\)|".*?")$', src, re.M | re.S))
    checks.append({"property": p["id"], "quick_cmd": f"/opt/venv/bin/python check.py {p['id']} quick",
                   "thorough_cmd": f"/opt/venv/bin/python check.py {p['id']} thorough",
                   "technique": g("TECHNIQUE", TECH), "level": "model_checking", "level_note": g("LEVEL_NOTE", NOTE)})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import sys; sys.path.insert(0, \".\"); from mc import vtime; print(vtime.shim_path())'",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks substitute the memory:// backend module, the event loop and the clock from outside."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
