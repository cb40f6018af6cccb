#!/bin/bash
# apply each seeded bug to /repo, run its property's quick check, undo. usage: tools/sweep.sh [id...]
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "NOAPPLY $d"; continue; }
  out=$(VERIF_SEED=${VERIF_SEED:-1} bash check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then echo "CAUGHT $d $p $(grep -o 'key=[^:]*' <<<"$out" | head -1)"; else echo "MISSED $d $p rc=$rc"; tail -3 <<<"$out"; fi
done
