#!/bin/bash
# seedrun.sh ID [PROP...]: applies a planted bug to /repo, runs checks, undoes it.
ID=$1; shift
P=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo dirty; exit 1; }
git -C /repo apply /verif/seeded/$ID/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
for p in $P; do
 o=$(VERIF_SEED=${VERIF_SEED:-1} bash /verif/check.sh $p 2>&1); rc=$?
 echo "$ID $p rc=$rc $(echo "$o" | grep -c ^VIOLATION) $(echo "$o" | grep -m1 '^  \[' | cut -c1-160)"
 [ $rc = 0 -o $rc = 1 ] || echo "$o" | tail -5
done
