#!/bin/sh
# rebuild /repo and compare the outcome of its tests with the baseline
bash /opt/vp/build.sh > /tmp/build.log 2>&1 || { echo BUILD FAILED; tail -20 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/out.json > /tmp/test.log 2>&1
python3 - <<'PY'
import json
b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open('/tmp/out.json'))
def passed(x):
    for k in ('stable_passing', 'stable', 'passed', 'passing', 'pass'):
        if isinstance(x, dict) and k in x: return set(x[k])
    return set(x)
print("missing:", sorted(passed(b) - passed(o))[:20], len(passed(b)), len(passed(o)))
PY
git -C /repo status --short | head
