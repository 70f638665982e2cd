#!/bin/bash
# build and run the repository's own stable tests; prints a summary
bash /opt/vp/build.sh >/tmp/rt_build.log 2>&1 || { tail -40 /tmp/rt_build.log; echo BUILD FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/rt_out.json >/tmp/rt_test.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);t=json.load(open('/tmp/rt_out.json'))
m=b-set(t['passed']); print('passed',len(t['passed']),'missing',sorted(m)[:10])
raise SystemExit(1 if m else 0)
P
