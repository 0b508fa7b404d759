#!/bin/bash
# seed_check.sh [id...]: run each planted bug against its property's quick check.
cd /verif
ids="$@"; [ -z "$ids" ] && ids=$(ls seeded)
for id in $ids; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  bin=$(python3 -c "
import sys;sys.path.insert(0,'tools')
import json
m=json.load(open('MANIFEST.json'))
for c in m['checks']:
    if c['property']=='$prop': print(c['quick_cmd'] if 'quick_cmd' in c else c['quick'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 bash -c "$bin" 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $prop rc=$rc $(echo "$out" | grep -m1 VIOLATION)"
done
