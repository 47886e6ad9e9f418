#!/bin/bash
# sweep.sh [ID...]: apply each seeded bug to /repo, run the quick check of its property (or all with ALL=1), undo
V=$(cd "$(dirname "$0")/.." && pwd); cd "$V"
[ $# = 0 ] && set -- $(ls seeded)
for id in "$@"; do
  [ -z "$(git -C /repo status --short)" ] || { echo "/repo is not clean"; exit 2; }
  git -C /repo apply "$V/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  P=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  L=$P; [ -n "$ALL" ] && L=$(target/release/simcheck list 2>/dev/null | awk '{print $1}')
  for p in $L; do
    s=$(date +%s); ./check.sh "$p" quick >/tmp/sweep.log 2>&1; rc=$?; e=$(( $(date +%s) - s ))
    v=$(grep -m1 '^VIOLATION' /tmp/sweep.log | cut -c1-150)
    if [ "$p" = "$P" ]; then [ $rc = 1 ] && echo "$id $p CAUGHT ${e}s $v" || echo "$id $p MISSED rc=$rc ${e}s"; else [ $rc = 0 ] || echo "   $id also $p rc=$rc"; fi
  done
  git -C /repo checkout -- .
done
