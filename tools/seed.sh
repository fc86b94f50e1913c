#!/bin/bash
# seed.sh ID: confirms a planted bug in a scratch copy. The edited tree is in
# /tmp/wt; /verif/seeded/ID holds demo.sh (+ files) and meta.json; writes patch.diff.
ID=$1; S=/verif/seeded/$ID
. /opt/vp/env.sh
export VPWT=1
cd /tmp/wt || exit 1
git diff > $S/patch.diff; [ -s $S/patch.diff ] || { echo "no change"; exit 1; }
go build ./... || { echo NOBUILD; exit 1; }
T=$(mktemp -d /tmp/seed.XXXX); trap 'rm -rf $T' EXIT
sed "s#/repo#/tmp/wt#g" /opt/vp/env.sh > $T/env.sh; sed "s#/opt/vp/env.sh#$T/env.sh#; s#/opt/vp/log#$T#" /opt/vp/test.sh > $T/test.sh
bash $T/test.sh $T/out.json >$T/log 2>&1
python3 - $T/out.json <<'P' || exit 1
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=set(json.load(open(sys.argv[1]))['passed'])
if b-o: print('TESTS FAIL',b-o); sys.exit(1)
P
cp -r $S $T/d; rm -f $T/d/patch.diff $T/d/meta.json
(cd /tmp/wt && timeout 300 bash $T/d/demo.sh >$T/bad.log 2>&1); b=$?
(cd /repo && timeout 300 bash $T/d/demo.sh >$T/ok.log 2>&1); a=$?
echo "$ID demo: clean=$a patched=$b"
[ $a = 0 ] && [ $b != 0 ] || { echo "DEMO WRONG"; tail -20 $T/ok.log $T/bad.log; exit 1; }
grep -m3 -E "FAIL|Error|fail" $T/bad.log
git checkout -q -- .
