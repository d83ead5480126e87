#!/bin/bash
# trybug.sh ID [checks...]: apply a planted bug to /repo, run the checks (default: its own property), undo.
cd /verif; id=$1; shift
p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "/repo not clean"; exit 2; }
git -C /repo apply /verif/seeded/$id/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for c in ${@:-$p}; do
  s=$(date +%s); ./check $c > /tmp/trybug.out 2>&1; rc=$?
  echo "$id $c rc=$rc $(( $(date +%s)-s ))s $(grep -v VIOLATION /tmp/trybug.out | head -1 | cut -c1-200)"
done
