#!/bin/bash
# seedtest.sh ID: confirms a planted bug in a private copy of /repo (bind-mounted over /repo in a
# namespace): patched tree builds, stable tests pass, demo fails, own check fires; clean: demo passes.
id=$1; V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$id; W=/tmp/sr.$id
rm -rf "/tmp/sr.$id"; cp -a /repo "$W"
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
unshare -Urm bash -c "
mount --bind $W /repo || exit 9
cd /repo
bash /opt/vp/build.sh >$W.log 2>&1; bash $S/demo.sh >>$W.log 2>&1; d0=\$?
git apply $S/patch.diff || { echo '$id: PATCH DOES NOT APPLY'; exit 1; }
python3 $V/check.py $prop > $W.check 2>&1; c=\$?
bash /opt/vp/test.sh $W.json >>$W.log 2>&1
t=\$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); b=b.get('passed',b.get('stable',b)) if isinstance(b,dict) else b
r=json.load(open('$W.json')); print(len([x for x in b if x not in r['passed']]))
P
)
bash $S/demo.sh >>$W.log 2>&1; d1=\$?
echo \"$id prop=$prop demo_clean=\$d0 demo_patched=\$d1 stable_tests_failing=\$t check_exit=\$c\"
grep -m3 -A1 'VIOLATION\|INCONCLUSIVE' $W.check
"
rm -rf "/tmp/sr.$id" "/tmp/sr.$id.json"
