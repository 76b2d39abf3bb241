#!/bin/bash
# builds the repository and runs its own tests, prints any stable test that does not pass
bash /opt/vp/build.sh > /tmp/rt_b.log 2>&1 || { echo BUILD FAILED; tail -20 /tmp/rt_b.log; exit 1; }
bash /opt/vp/test.sh /tmp/rt_o.json > /tmp/rt_t.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('/tmp/rt_o.json'))['passed'])
print("missing:",sorted(b-o),"passed:",len(b&o),"of",len(b))
P
