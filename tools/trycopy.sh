#!/bin/bash
# trycopy.sh ID... : runs the check of each planted bug's property against a
# scratch copy of /repo with the bug in it (/repo is not touched).
. /opt/vp/env.sh
cd "$(dirname "$0")/.."
for id in "$@"; do
  d=$(mktemp -d /tmp/trycopy.XXXXXX)
  cp -a /repo "$d/r"
  git -C "$d/r" apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; rm -rf "$d"; continue; }
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick SIM_REPO="$d/r" ./check.sh "$p" quick > "$d/out" 2>&1
  rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION "$d/out")"
  rm -rf "$d"
done
