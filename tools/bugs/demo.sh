#!/bin/bash
# Runs demo_test.go inside package unitype (cwd: the repository).
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d) || exit 3
export DEMO_TMP=$t
echo "{\"Replace\":{\"$PWD/zz_demo_test.go\":\"$d/demo_test.go.txt\"}}" >$t/o.json
timeout 200 go test -overlay $t/o.json -vet=off -count=1 -timeout 180s -run '^TestDemo$' .
rc=$?
rm -r "$t"
exit $rc
