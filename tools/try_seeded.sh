#!/bin/bash
# try_seeded.sh [ID...]: run the property's quick check against each planted bug (on /repo, undone straight afterwards)
cd "$(dirname "$0")/.." || exit 3
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  VERIF_SEED=${SEED:-1} python3 run.py $p quick > /tmp/try.$$ 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(grep -m1 CLAUSE /tmp/try.$$ | cut -c1-120) $(tail -1 /tmp/try.$$ | cut -c1-100)"
done
rm -f /tmp/try.$$
