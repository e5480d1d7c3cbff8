#!/bin/bash
# runs the stable tests on /repo and says which ones fail
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo BUILD FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/vt_out.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/vt_out.json'))
miss=[t for t in b if t not in o['passed']]
print("stable missing:", miss); raise SystemExit(1 if miss else 0)
P
