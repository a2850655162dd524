#!/bin/bash
# run repo tests, report
cd /repo && bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { echo BUILD FAIL; tail -20 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/o.json'))
miss=[t for t in b['stable'] if t not in o['passed']]
print("passed",len(o['passed']),"failed",o['failed'],"missing stable",miss)
P
