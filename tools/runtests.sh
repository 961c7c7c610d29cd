#!/bin/bash
# dev aid: build and run the repository's tests; report missing stable tests
bash /opt/vp/build.sh >${RT:-/tmp}/rt-b.log 2>&1 || { tail -n 20 ${RT:-/tmp}/rt-b.log; echo BUILD FAILED; exit 1; }
bash /opt/vp/test.sh ${RT:-/tmp}/rt-o.json >${RT:-/tmp}/rt-t.log 2>&1
python3 - ${RT:-/tmp}/rt-o.json <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
p=set(o['passed']); m=[t for t in b['stable'] if t not in p]
print("stable missing:",m, "passed",len(p),"failed",len(o['failed']))
PY
