#!/bin/bash
# developer tool: applies every seeded change to a copy of /repo and runs the check of its property
# usage: seedtest.sh [ID...]
cd "$(dirname "$0")/.." || exit 2
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  w=$(mktemp -d /tmp/seedtest.XXXXXX)
  cp -a /repo/. "$w"/ && git -C "$w" checkout -q -- . && git -C "$w" apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; rm -rf "$w"; continue; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  timeout 900 python3-vt govc/check.py "$p" --repo "$w" --evidence "$w/evidence" $SEEDTEST_ARGS > "$w/out.txt" 2>&1; rc=$?
  echo "== $id $p exit $rc"; grep -E "VIOLATION|failed obligation|failing input|obligations discharged|ERROR" "$w/out.txt" | cut -c1-${SEEDTEST_COLS:-260}
  rm -rf "$w"
done
