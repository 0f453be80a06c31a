#!/bin/bash
# fixcommit.sh MSG : build, run the stable tests, commit /repo with MSG
set -e
. /opt/vp/env.sh
cd /repo

bash /opt/vp/build.sh
bash /opt/vp/test.sh /tmp/fx.json >/dev/null 2>&1 || true
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
r=json.load(open('/tmp/fx.json'))
p=r.get('passed') or r
ps=set(p if isinstance(p,list) else [k for k,v in p.items() if v in('pass',True)])
bad=[t for t in b if t not in ps]
print('stable failing:',bad)
raise SystemExit(1 if bad else 0)
P
git status --short
git commit -qam "$1"
git log --oneline | head -1
