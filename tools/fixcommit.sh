#!/bin/bash
# fixcommit.sh "<props>" "<subject>" "<body>": test, commit in /repo as fix:, record in known_findings.txt
set -e
bash /opt/vp/build.sh >/tmp/fc.log 2>&1 || { tail -20 /tmp/fc.log; exit 1; }
bash /opt/vp/test.sh /tmp/fc.json >/tmp/fct.log 2>&1 || true
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/fc.json'))
def ids(x):
    return x
print('baseline keys',list(b)[:5] if isinstance(b,dict) else type(b)); 
P
tail -1 /tmp/fct.log
grep -q "67 passed" /tmp/fct.log || { echo TESTS; exit 1; }
cd /repo; git add -u; git commit -qm "fix: $2" -m "$3"; h=$(git rev-parse --short HEAD)
for p in $1; do echo "fixed: property=$p $h $2" >> /verif/known_findings.txt; done
git status --short | head; git log --oneline | head -1
