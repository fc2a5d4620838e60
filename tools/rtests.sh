#!/bin/bash
# tools/rtests.sh DIR: run the stable tests against DIR/src (a scratch copy of /repo)
w=$(mktemp -d /tmp/rt-XXXXXX); trap 'rm -rf "$w"' EXIT
cd "$1" || exit 9
export REDIS_VERSION=memory PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 COVERAGE_FILE="$w/.coverage" PYTHONPATH="$1/src"
/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:randomly -o addopts=--import-mode=importlib -n 4 --timeout=30 \
  --session-timeout=780 --continue-on-collection-errors -o junit_family=xunit2 --junitxml="$w/junit.xml" >"$w/test.log" 2>&1
python3 /opt/vp/results.py "$w/res.json" "junit:$w/junit.xml" >/dev/null
python3 - "$w/res.json" <<'P'
import json,sys
r=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
p=set(r.get('passed',r.get('pass',[])))
bad=[t for t in b if t not in p]
print('stable',len(b),'not passing',len(bad),bad[:8])
P
