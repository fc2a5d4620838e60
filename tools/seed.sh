#!/bin/bash
# tools/seed.sh ID [check|demo|tests|all]: try a planted bug in a scratch copy of /repo (which is left alone).
# demo: exits 0 on the original and nonzero with the patch; tests: the stable tests pass with it; check: the property's check reports it.
id=$1; what=${2:-all}; here=/verif/seeded/$id
w=$(mktemp -d /tmp/seed-XXXXXX); trap 'rm -rf "$w"' EXIT
cp -a "${MUT_REPO:-/repo}" "$w/repo"; cd "$w/repo" || exit 9
run() { (cd "$w/repo" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$w/repo/src" timeout 300 bash "$w/demo/demo.sh"); }
cp -r "$here" "$w/demo"; rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
ok=0
if [ "$what" = all ] || [ "$what" = demo ]; then run >"$w/out0" 2>&1; r0=$?; [ $r0 -ne 0 ] && { ok=1; tail -5 "$w/out0"; }; fi
git apply "$here/patch.diff" || { echo "$id: patch does not apply"; exit 9; }
if [ "$what" = all ] || [ "$what" = demo ]; then run >"$w/out1" 2>&1; r1=$?; [ $r1 -eq 0 ] && ok=1; echo "$id demo: original $r0, patched $r1: $(tail -1 "$w/out1")"; fi
if [ "$what" = all ] || [ "$what" = tests ]; then
  (export REDIS_VERSION=memory PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 COVERAGE_FILE="$w/.coverage" PYTHONPATH="$w/repo/src"
   /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:randomly -o addopts=--import-mode=importlib -n 4 --timeout=30 \
     --session-timeout=780 --continue-on-collection-errors -o junit_family=xunit2 --junitxml="$w/junit.xml" >"$w/test.log" 2>&1)
  python3 /opt/vp/results.py "$w/res.json" "junit:$w/junit.xml" >/dev/null
  python3 - "$w/res.json" "$id" <<'P' || ok=1
import json,sys
r=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
p=set(r.get('passed',r.get('pass',[])))
bad=[t for t in b if t not in p]
print(sys.argv[2],'tests: stable',len(b),'not passing',len(bad),bad[:5])
sys.exit(1 if bad else 0)
P
fi
if [ "$what" = all ] || [ "$what" = check ]; then
  p=$(python3 -c "import json;print(json.load(open('$here/meta.json'))['property'])")
  (cd /verif && MC_REPO_SRC="$w/repo/src" MC_SCRATCH="$w" timeout 900 /opt/venv/bin/python check.py ${3:-$p} quick >"$w/chk" 2>&1); rc=$?
  echo "$id check ${3:-$p}: exit $rc $(grep -m1 VIOLATION "$w/chk")"; grep -A3 -m1 VIOLATION "$w/chk" | tail -n +2 | cut -c1-300
fi
exit $ok
