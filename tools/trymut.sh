#!/bin/bash
# trymut.sh SEEDID [CHECK...]: applies the planted bug to /repo, runs its check (or the given ones), undoes it
V=/verif; ID=$1; shift
P=$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")
[ $# -eq 0 ] && set -- "$P"
git -C /repo apply "$V/seeded/$ID/patch.diff" || exit 3
trap 'git -C /repo checkout -- .' EXIT
for c in "$@"; do
  timeout 900 bash $V/run.sh $c > /tmp/trymut_$ID.$c.log 2>&1; rc=$?
  echo "$ID $c rc=$rc $(grep -m1 VIOLATION /tmp/trymut_$ID.$c.log)"
done
