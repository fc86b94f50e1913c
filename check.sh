#!/bin/bash
# check.sh <property>: builds the harness into the module under test and runs
# one property's monitor. REPO selects the tree (default /repo).
set -u
PROP=$1
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO="${REPO:-/repo}"
export VERIF_ROOT="${VERIF_ROOT:-$VERIF}" REPO
. "$VERIF/build.sh"
build_harness || { echo "INCONCLUSIVE harness build failed"; exit 3; }
if [ "$PROP" = C28 ]; then
  build_native || { echo "INCONCLUSIVE native build failed"; exit 3; }
  export VERIF_NATIVE="$WORK/native"
fi
if [ "$PROP" = C19 ]; then
  build_race || { echo "INCONCLUSIVE race build failed"; exit 3; }
  export VERIF_RACE="$WORK/zz_race"
fi
export VERIF_WORK="$WORK" VERIF_GEN26="$VERIF/gen26"
cd "$WORK"
"$WORK/zz_verif" "$PROP" 2>"$WORK/stderr.log"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ] && grep -q "^fatal error: concurrent map" "$WORK/stderr.log"; then
  # Cases run side by side in one process: state which all applications of a
  # process share is judged with one case at a time.
  VERIF_WORKERS=1 "$WORK/zz_verif" "$PROP" 2>"$WORK/stderr.log"
  rc=$?
fi
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  cp "$WORK/stderr.log" "$WORK/crash.log"
  "$WORK/zz_verif" "$PROP" "$WORK/crash.log" 2>/dev/null
  [ $? -eq 1 ] && exit 1
  grep -v -e badger -e "^Level" "$WORK/stderr.log" | tail -c 6000 >&2
fi
exit $rc
