#!/bin/bash
# tools/catch.sh SEEDID... : run the property's check against a scratch copy of /repo with the planted change
for id in "$@"; do
  d=/tmp/catch_$id; cp -a /repo $d; git -C $d apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; rm -rf "/tmp/catch_$id"; continue; }
  p=$(python3 -c "import json,sys; print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  s=$(date +%s)
  out=$(PYVC_REPO=$d VERIF_TIER=quick VERIF_SEED=1 python3-vt /verif/check.py $p 2>&1); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s :: $(echo "$out" | grep -m2 VIOLATION)"
  rm -rf "/tmp/catch_$id"
done
