#!/bin/bash
# runs the repository's tests and lists stable ones that did not pass
source /opt/vp/env.sh; cd /repo; bash /opt/vp/build.sh >/tmp/build.log 2>&1 || tail -30 /tmp/build.log
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
m=set(b['stable'])-set(o['passed']); print(len(o['passed']),'passed; missing',len(m),sorted(m)[:12])
P
