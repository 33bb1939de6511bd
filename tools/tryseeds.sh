#!/bin/bash
# tryseeds.sh [ids...]: runs the quick check of the property of each planted bug against a scratch copy with the bug applied
cd "$(dirname "$0")/.."
W=/tmp/seed/try
[ -d $W ] || { mkdir -p /tmp/seed; cp -a /repo $W; }
for id in ${@:-$(ls seeded)}; do
  git -C $W checkout -q -- . ; git -C $W fetch -q /repo HEAD; git -C $W reset -q --hard FETCH_HEAD
  git -C $W apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  VERIF_REPO=$W /opt/venv/bin/python run_check.py $p quick > /tmp/seed/try.log 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -c VIOLATION /tmp/seed/try.log) $(grep -A1 -m1 VIOLATION /tmp/seed/try.log | tail -1 | cut -c1-150)"
done
git -C $W checkout -q -- .
