#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property of /repo's current tree.
# Exit 0: holds on everything analysed; exit 1 with a VIOLATION line otherwise.
V="$(cd "$(dirname "$0")" && pwd)"
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
W="$(mktemp -d /tmp/vp-check.XXXXXX)" || { echo "VIOLATION property=$ID replay=$V/check.sh"; exit 1; }
trap 'rm -rf "$W"' EXIT
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=readonly
mkdir -p "$V/evidence/reports"
R="$V/evidence/reports/$ID.txt"
if ! (cd "$V/analyzer" && go build -o "$W/analyzer" . ) >"$R" 2>&1; then
  cat "$R"; echo "VIOLATION property=$ID replay=$R"; exit 1
fi
(ulimit -v 25000000; exec timeout 840 "$W/analyzer" -repo "${VERIF_REPO:-/repo}" -verif "$V" -id "$ID" -tier "$TIER") >"$W/out" 2>&1
rc=$?
cat "$W/out"
if [ $rc -ne 0 ] && ! grep -q "^VIOLATION property=$ID " "$W/out"; then
  cp "$W/out" "$R"; echo "VIOLATION property=$ID replay=$R"
fi
[ $rc -eq 0 ] && exit 0
exit 1
