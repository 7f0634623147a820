#!/bin/bash
# seedcheck.sh SEED...: applies each planted bug in /repo, runs its property's quick check, undoes the change. Not used by any check.
VERIF="$(cd "$(dirname "$0")/.." && pwd)"; cd $VERIF
for id in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply $VERIF/seeded/$id/patch.diff || { echo "$id: no apply"; continue; }
  s=$(date +%s); timeout 900 ./check.sh ${PROP:-$P} ${TIER:-quick} > /tmp/seedcheck.log 2>&1; r=$?
  git -C /repo checkout -q -- .
  echo "$id ${PROP:-$P}: exit $r $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/seedcheck.log | cut -c1-150)"
done
