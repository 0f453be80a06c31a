#!/bin/bash
# trybug.sh PATCH-OR-ID PROP... : run checks on a scratch copy of /repo with the change applied.
p=$1; shift
[ -d /verif/seeded/$p ] && { [ $# = 0 ] && set -- $(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' /verif/seeded/$p/meta.json); f=/verif/seeded/$p/patch.diff; } || f=$p
w=$(mktemp -d /tmp/trybug.XXXXXX); trap 'rm -rf "$w"' EXIT
git clone -q /repo $w/repo; git -C $w/repo apply $f || exit 2
mkdir -p $w/ev
for c in "$@"; do
  s=$(date +%s)
  out=$(UNICHECK_REPO=$w/repo UNICHECK_EVIDENCE=$w/ev bash /verif/check.sh $c 2>&1); rc=$?
  echo "== $p $c rc=$rc $(( $(date +%s)-s ))s"; echo "$out" | head -${LINES_OUT:-6}
done
