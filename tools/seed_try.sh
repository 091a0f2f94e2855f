#!/bin/bash
# seed_try.sh <id> [nocheck]: confirms seeded/<id> (demo 0 clean, builds, tests pass, demo
# nonzero) in /repo itself and runs its property's check; undoes the change.
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo "repo dirty"; exit 9; }
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1
timeout 300 bash $d/demo.sh >/tmp/seed_demo0.log 2>&1; echo "$id demo clean rc=$? (want 0)"
git apply $d/patch.diff || exit 8
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1; echo "$id build rc=$?"
bash /opt/vp/test.sh /tmp/seed_out.json >/dev/null 2>&1
python3 - <<P
import json
o=set(json.load(open('/tmp/seed_out.json'))['passed']);b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);print("$id","tests missing:",sorted(b-o)[:5])
P
timeout 300 bash $d/demo.sh >/tmp/seed_demo1.log 2>&1; echo "$id demo bug rc=$? (want !=0)"
[ "$2" = nocheck ] || { (cd /verif; python3 check.py $prop) >/tmp/seed_check.log 2>&1; echo "$id check $prop rc=$? (want 1)"; tail -3 /tmp/seed_check.log; }
git -C /repo checkout -- .
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1
