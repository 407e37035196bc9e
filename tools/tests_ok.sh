#!/bin/bash
# Builds /repo and checks that every stable test passes.
bash /opt/vp/build.sh >/tmp/vbuild.log 2>&1 || { tail /tmp/vbuild.log; exit 1; }
bash /opt/vp/test.sh /tmp/vtest.json >/tmp/vtest.log 2>&1
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/vtest.json'))
miss=set(b['stable'])-set(t['passed'])
print('stable:',len(b['stable']),'missing:',sorted(miss)[:10]); sys.exit(bool(miss))
P
