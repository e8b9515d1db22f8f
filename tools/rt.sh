#!/bin/bash
# run the stable tests and compare with the baseline
bash /opt/vp/test.sh /tmp/rt.json >/tmp/rt.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/rt.json'))
m=b-set(r['passed']); print('stable ok' if not m else 'MISSING %s'%sorted(m)[:10], len(r['passed']))
P
