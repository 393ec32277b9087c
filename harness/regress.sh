#!/bin/bash
# rebuild /repo and compare with the baseline
bash /opt/vp/build.sh >/tmp/regress.log 2>&1 || { tail -30 /tmp/regress.log; exit 1; }
bash /opt/vp/test.sh /tmp/regress.json >/tmp/regress.log 2>&1
python3 - <<'P'
import json
d=json.load(open('/tmp/regress.json')); b=json.load(open('/opt/vp/BASELINE.json'))
base=set(b.get('passed') or b.get('stable') or b.get('tests') or [])
print('passed',len(d['passed']),'failed',d['failed'],'missing',sorted(base-set(d['passed']))[:5], 'base', len(base))
P
