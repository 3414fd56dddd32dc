#!/bin/bash
# Runs the check of each planted bug's property (or PROP=...) against /repo with the bug applied.
for id in "$@"; do
  d=/verif/seeded/$id
  p=${PROP:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  (cd /verif && VERIF_TIER=quick VERIF_SEED=${VERIF_SEED:-1} bash check.sh $p) > /tmp/catch.$id.$p 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 ^VIOLATION /tmp/catch.$id.$p)"
done
