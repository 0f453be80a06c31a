#!/bin/bash
# usage: check.sh <property> [quick|thorough]   Builds the checker if needed and decides one property of /repo.
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"
dir="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOWORK=off GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off CGO_ENABLED=0
mkdir -p "$dir/bin" "$dir/evidence"
out="$(cd "$dir/checker" && go build -o "$dir/bin/unicheck" . 2>&1)" || { echo "checker build failed: $out"; exit 2; }
[ "$prop" = build ] && exit 0
"$dir/bin/unicheck" -prop "$prop" -tier "$tier" -repo "${UNICHECK_REPO:-/repo}" -verif "$dir"
