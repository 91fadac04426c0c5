#!/bin/bash
# try_bug.sh BUG [PROPERTY...]: apply seeded/BUG to /repo's working tree, run the checks (default: its own property), undo
b=$1; shift
d=/verif/seeded/$b
ids="$*"; [ -n "$ids" ] || ids=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply $d/patch.diff || exit 1
for i in $ids; do
  s=$(date +%s)
  out=$(cd /verif && VERIF_SEED=${VERIF_SEED:-1} timeout 900 ./check.sh $i 2>&1); rc=$?
  echo "$b $i rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -E "VIOLATION|^ERROR|^  [a-z_0-9]+:" | cut -c1-200 | tr '\n' '|')"
done
git -C /repo checkout -q -- .
