#!/bin/bash
# fix_commit.sh "message": run the stable tests and commit the change in /repo
set -e
bash /opt/vp/build.sh >/tmp/fix_build.log 2>&1 || { tail -30 /tmp/fix_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/fix_test.json >/tmp/fix_test.log 2>&1 || true
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/fix_test.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('passed','stable','tests'):
            if k in x: return set(x[k]) if isinstance(x[k],list) else set(n for n,v in x[k].items() if v in ('pass','passed',True))
    return set(x)
bs,ts=names(b),names(t)
print(len(bs),len(ts),"missing:",sorted(bs-ts)[:10])
sys.exit(1 if bs-ts else 0)
P
cd /repo && git status --short && git commit -qam "$1" && git log --oneline | head -1
