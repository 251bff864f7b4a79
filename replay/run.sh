#!/bin/bash
# Replay harness: runs the executable reading of a property's contracts against the real code of the repository
# (an in-package test added through go's -overlay; nothing is written to the repository).
# usage: run.sh PROP   (REPLAY_MODE=search|standin, VERIF_SEED, VERIF_TIER, REPLAY_REPO)
prop=${1:?property}
here=$(cd "$(dirname "$0")" && pwd)
repo=${REPLAY_REPO:-/repo}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GODEBUG=randautoseed=0
f=$here/$(echo "$prop" | tr 'A-Z' 'a-z')_test.go
if [ ! -f "$f" ]; then echo "no replay harness for $prop"; exit 2; fi
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cat > "$work/overlay.json" <<O
{"Replace": {
 "$repo/featselect/zz_vf_common_test.go": "$here/common_test.go",
 "$repo/featselect/zz_vf_prop_test.go": "$f"
}}
O
cd "$repo" || exit 2
export VF_CASE="$work/case" VF_SCRATCH="$work/scratch"
mkdir -p "$VF_SCRATCH"
go test -c -vet=off -overlay "$work/overlay.json" -o "$work/t.test" ./featselect > "$work/build" 2>&1
if [ $? -ne 0 ]; then head -c 3000 "$work/build"; echo; echo "the replay harness does not build against this source"; exit 2; fi
cd "$work/scratch" || exit 2
timeout -k 5 ${VF_LIMIT:-200} "$work/t.test" -test.run "^TestVF$prop\$" -test.timeout 190s > "$work/out" 2>&1
code=$?
grep -a -E 'FAILING-INPUT |STATS ' "$work/out" | head -20
if [ $code -ne 0 ] && ! grep -a -q 'FAILING-INPUT ' "$work/out"; then
  if [ -s "$work/case" ] && grep -a -q -E '^(panic:|fatal error:|goroutine )|unexpected signal' "$work/out"; then
    echo "FAILING-INPUT property=$prop crash while running: $(head -c 1500 "$work/case" | tr '\n' ' ')"
    grep -a -m1 -E '^(panic:|fatal error:)' "$work/out"
  fi
  tail -c 3000 "$work/out"
fi
[ $code -eq 0 ] && exit 0
exit 1
