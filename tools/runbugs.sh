#!/bin/bash
# runbugs.sh [id...]: apply each seeded bug to /repo, run its property's quick check, undo
cd /verif
for b in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b does not apply"; continue; }
  timeout 900 python3 check.py $p quick > /tmp/rb.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$b $p rc=$rc $(grep -m1 VIOLATION /tmp/rb.out | cut -c1-120) | $(tail -1 /tmp/rb.out | cut -c1-120)"
done
