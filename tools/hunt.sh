#!/bin/bash
# hunt.sh ID...   run the check of each planted bug's property with the bug applied to /repo
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s); o=$(cd /verif && ./check.sh ${HUNT_PROP:-$p} quick 2>&1); rc=$?; e=$(date +%s)
  git -C /repo checkout -q -- .
  echo "$id ${HUNT_PROP:-$p} rc=$rc $((e-s))s $(echo "$o" | tail -3 | tr '\n' '|' | cut -c1-330)"
done
