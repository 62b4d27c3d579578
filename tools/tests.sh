#!/bin/bash
# builds /repo, runs its tests, prints stable tests that fail
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
print("stable tests failing:", [k for k in b['stable'] if k not in t['passed']])
P
