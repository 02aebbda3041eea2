#!/bin/bash
# bugs.sh [ID...]: run each planted bug's check against /repo with the bug applied, then undo it.
cd /verif; [ $# = 0 ] && set -- $(ls seeded)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: no apply"; continue; }
  s=$SECONDS; o=$(./check.sh $p quick 2>&1); r=$?
  git -C /repo checkout -q -- .
  python3 - "$id" $r <<'P'
import json, os, sys
f = "/verif/tools/caught.json"
d = json.load(open(f)) if os.path.exists(f) else {}
d[sys.argv[1]] = "yes" if sys.argv[2] == "1" else "no"
json.dump(d, open(f, "w"), indent=1, sort_keys=True)
P
  echo "$id $p exit=$r $((SECONDS-s))s $(echo "$o" | grep -m2 VIOLATION | tr '\n' ' ')"
done
