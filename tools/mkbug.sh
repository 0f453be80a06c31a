#!/bin/bash
# mkbug.sh ID : verify seeded bug /verif/seeded/ID in a scratch copy: the patch applies, changes original
# lines, builds, keeps the stable tests passing, and its demo tells the two trees apart.
if [ -z "$MKBUG_NS" ]; then # a test writes /tmp/1.ttf: use a /tmp of our own
  MKBUG_NS=1 exec unshare -m bash -c 'mount -t tmpfs tmpfs /tmp && exec "$@"' x "$0" "$@"
fi
id=$1; s=/verif/seeded/$id
w=$(mktemp -d /tmp/mkbug.XXXXXX); trap 'rm -rf "$w"' EXIT
git clone -q /repo $w/repo || exit 2
. /opt/vp/env.sh
cp -r $s $w/demo; rm -f $w/demo/*.diff $w/demo/meta.json
cd $w/repo
go build ./... || exit 2
(bash $w/demo/demo.sh >$w/o1 2>&1); a=$?
git apply $s/patch.diff || { echo "$id: patch does not apply"; exit 1; }
# original lines?
git diff -U0 | python3 -c '
import sys,re,subprocess
f=None;own=0;orig=0
for l in sys.stdin:
    if l.startswith("--- a/"): f=l[6:].strip()
    m=re.match(r"@@ -(\d+)(?:,(\d+))? ",l)
    if m:
        n=int(m.group(2) or 1)
        if n==0: continue
        b=subprocess.run(["git","blame","-s","-L","%s,+%d"%(m.group(1),n),"HEAD","--",f],capture_output=True,text=True).stdout
        for x in b.splitlines():
            if x.startswith("^"): orig+=1
            else: own+=1
print("original lines changed/removed:",orig," own:",own)'
go vet ./... >/dev/null 2>&1; go build ./... && (cd truecli && go build ./...) || { echo "$id: does not build"; exit 1; }
(bash $w/demo/demo.sh >$w/o2 2>&1); b=$?
go test -count=1 -json . 2>/dev/null | python3 -c '
import json,sys
base=json.load(open("/opt/vp/BASELINE.json"))
res={}
for l in sys.stdin:
    try: e=json.loads(l)
    except Exception: continue
    if e.get("Test") and e["Action"] in("pass","fail","skip"): res[e["Test"]]=e["Action"]
s=json.dumps(base)
bad=[t for t,a in res.items() if a!="pass"]
print("non-passing:",len(bad),"passing:",sum(a=="pass" for a in res.values()))'
echo "$id: clean demo exit $a, patched demo exit $b"
[ $a = 0 ] || { echo CLEAN FAILS; tail -20 $w/o1; }
[ $b != 0 ] || echo "PATCH NOT DETECTED BY DEMO"
tail -${2:-6} $w/o2
