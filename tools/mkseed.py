"""mkseed.py BATCH.py [ID...]: writes /verif/seeded/<id>/ from a batch file: seed(id, property, edits=[(file, old, new)], demo, needs, breaks).
The demo is Python run by demo.sh; it exits 0 on the original code."""
import json, os, subprocess, sys, tempfile, shutil
OUT = "/verif/seeded"
PRE = '''import asyncio, logging, sys
from datetime import datetime, timedelta, timezone
import docket
from docket import *
logging.disable(logging.CRITICAL)
S = lambda s: timedelta(seconds=s)
now = lambda: datetime.now(timezone.utc)
def opened(name="demo", **kw): return Docket(name=name, url="memory://demo", **kw)
def worker(d, name="w", **kw):
    a = dict(name=name, minimum_check_interval=S(0.02), scheduling_resolution=S(0.02), redelivery_timeout=S(5), schedule_automatic_tasks=False)
    a.update(kw)
    return Worker(d, **a)
def check(cond, text):
    if not cond:
        print("FAILED:", text)
        sys.stdout.flush()
        import os
        os._exit(1)
'''
POST = '''
asyncio.run(asyncio.wait_for(main(), 120))
print("fine")
'''
only = sys.argv[2:]


def seed(id, property, edits, demo, needs, breaks):
    if only and id not in only: return
    w = tempfile.mkdtemp(prefix="mkseed-", dir="/tmp")
    try:
        subprocess.check_call(["git", "clone", "-q", os.environ.get("MUT_REPO", "/repo"), w + "/r"])
        for f, old, new in edits:
            p = f"{w}/r/src/docket/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
    finally:
        shutil.rmtree(w)
    d = f"{OUT}/{id}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(PRE + demo.strip("\n") + "\n" + POST)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": property, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", id)


exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
