"""Compare a result of /opt/vp/test.sh with the list of stable tests."""
import json, sys
b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open(sys.argv[1]))
print({k: (len(v) if hasattr(v, '__len__') else v) for k, v in o.items()})
passed = set(o.get('passed') or [])
print("stable tests not passing:", sorted(set(b['stable']) - passed)[:20])
