#!/bin/bash
# tools/catch.sh ID... : applies each planted bug to /repo, runs the check of its property, undoes it
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo not clean"; exit 1; }
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  t=$(date +%s); out=$(timeout 900 python3-vt kvc/check.py $p 2>&1); rc=$?; git -C /repo checkout -- .
  echo "$id rc=$rc $(( $(date +%s)-t ))s $(echo "$out" | grep -c ^undischarged) undischarged; $(echo "$out" | grep '^failing' | head -1 | cut -c1-150); $(echo "$out" | grep ^VIOLATION | cut -c1-120)"
done
