#!/bin/bash
# Runs the repository's tests and reports stable tests that did not pass. Usage: stable.sh (uses /repo)
bash /opt/vp/test.sh /tmp/stable_out.json >/dev/null 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/stable_out.json'))
miss=[t for t in b['stable'] if t not in o['passed']]
print("stable",len(b['stable']),"missing",miss)
PY
