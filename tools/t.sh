#!/bin/bash
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { echo BUILD FAIL; tail -20 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/out.json > /tmp/test.log 2>&1
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
miss=[t for t in b['stable'] if t not in set(o['passed'])]
print('passed',len(o['passed']),'stable missing',len(miss)); [print('  ',m) for m in miss[:10]]
sys.exit(1 if miss else 0)
P
