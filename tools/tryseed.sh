#!/bin/bash
# tools/tryseed.sh <seed id> [check...]: apply the seeded bug to /repo, build, run the
# stable tests and the demo, run the given checks, and undo it.
id=$1; shift
S=/verif/seeded/$id
cd /repo || exit 1
git diff --quiet || { echo "repo dirty"; exit 1; }
bash /opt/vp/build.sh >/dev/null 2>&1
D=$(mktemp -d); cp $S/demo.sh $D/; cp $S/*.cpp $S/*.h $D/ 2>/dev/null
bash $D/demo.sh >/tmp/demo.out 2>&1; echo "demo unchanged: $?"
git apply $S/patch.diff || exit 1
trap 'git -C /repo checkout -- .; rm -rf "$D"' EXIT
bash /opt/vp/build.sh >/tmp/build.out 2>&1 || echo BUILD FAILED
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
s=b.get('stable') or b.get('passed') or b
s=set(s if isinstance(s,list) else s.get('passed',[]))
print('tests broken:', sorted(s-set(t['passed']))[:5], len(t['passed']))
P
bash $D/demo.sh >/tmp/demo2.out 2>&1; echo "demo patched: $?"; tail -2 /tmp/demo2.out
for c in "$@"; do (cd /verif; timeout 900 python3-vt vc/run.py $c | tail -3 | cut -c1-300; echo "check $c: ${PIPESTATUS[0]}"); done
