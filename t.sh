#!/bin/bash
# build and run the repository's own tests; prints what no longer passes
if [ "${1:-/repo}" != /repo ]; then
  source /opt/vp/env.sh; cd "$1" && go build -tags timetzdata ./... && go test -tags timetzdata -vet=off -count=1 ./... | grep -v '^ok\|no test files'; exit 0
fi
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -20 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('passed','stable','pass','tests'):
            if k in x: return set(x[k] if isinstance(x[k],list) else [n for n,v in x[k].items() if v in ('pass','passed',True)])
    return set(x)
m=names(b)-names(o)
print('missing passes:',len(m),sorted(m)[:10])
P
