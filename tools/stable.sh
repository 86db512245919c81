#!/bin/bash
# Runs the repository's tests and lists stable ones that do not pass.
bash /opt/vp/build.sh >/tmp/vp_build.log 2>&1 || { tail -20 /tmp/vp_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/vp_t.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/vp_t.json'))
m=[x for x in b['stable'] if x not in t['passed']]
print('stable failing:',m)
P
