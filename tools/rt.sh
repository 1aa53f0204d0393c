#!/bin/bash
# build /repo and run its stable tests; print the ones that do not pass
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
s=b['stable']; p=set(o['passed'])
print('missing', [x for x in s if x not in p], 'passed', len(p))
P
