#!/bin/bash
bash /tmp/vps/build.sh >/tmp/build2.log 2>&1 || { echo BUILD FAIL; tail -20 /tmp/build2.log; exit 1; }
bash /tmp/vps/test.sh /tmp/out2.json > /tmp/test2.log 2>&1
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out2.json'))
miss=[t for t in b['stable'] if t.replace('/repo','/tmp/rs') not in set(o['passed'])]
print('passed',len(o['passed']),'stable missing',len(miss)); [print('  ',m) for m in miss[:10]]
sys.exit(1 if miss else 0)
P
