#!/bin/bash
# runs each seeded change's own check (and prints which label caught it)
cd /verif
for d in ${@:-seeded/*}; do
  d=seeded/$(basename $d); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $PWD/$d/patch.diff || { echo "$d does not apply"; continue; }
  s=$(date +%s); out=$(python3 check.py $p --tier quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$(basename $d) $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 '^violation' | cut -c1-150)"
  python3 - "$(basename $d)" "$rc" "$(echo "$out" | grep -m1 '^violation' | sed 's/^violation //; s/ at .*//')" <<'P'
import json, sys, os
f = '/verif/tools/caught.json'
c = json.load(open(f)) if os.path.exists(f) else {}
c[sys.argv[1]] = sys.argv[3] if sys.argv[2] == '1' else 'not caught'
json.dump(c, open(f, 'w'), indent=1, sort_keys=True)
P
  [ $rc = 1 ] || echo "$out" | tail -5
done
