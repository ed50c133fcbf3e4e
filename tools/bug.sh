#!/bin/bash
# bug.sh <id> [checks...] : try a planted bug: demo on the clean tree, then build+tests+demo+checks with the patch
d=/verif/seeded/$1; shift
P=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 9
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 9; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD0; exit 9; }
bash $d/demo.sh >/tmp/demo0.log 2>&1; r0=$?
git apply $d/patch.diff || exit 9
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 - <<'Q'
import json
o=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print('stable missing',[t for t in b['stable'] if t not in o['passed']])
Q
bash $d/demo.sh >/tmp/demo1.log 2>&1; r1=$?
echo "demo clean=$r0 patched=$r1 ($(tail -1 /tmp/demo1.log | cut -c1-200))"
else git apply $d/patch.diff || exit 9; fi
cd /verif
for c in ${@:-$P}; do timeout 900 python3 run.py $c quick | cut -c1-400 | tail -4; done
