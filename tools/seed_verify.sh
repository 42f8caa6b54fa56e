#!/bin/bash
# seed_verify.sh ID...: applies seeded/ID/patch.diff to /repo, checks that it builds, passes the
# stable tests, that demo.sh passes without and fails with it, and which check catches it; then undoes it.
cd /repo || exit 2
for id in "$@"; do
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
bash $d/demo.sh >/tmp/demo0.log 2>&1; r0=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
if [ -n "$FAST" ]; then miss=skipped; else
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1; b=$?
bash /opt/vp/test.sh /tmp/seed_out.json >/dev/null 2>&1
miss=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed_out.json'))
print(len([t for t in b['stable'] if t not in o['passed']]), [t for t in b['stable'] if t not in o['passed']][:3])")
fi
bash $d/demo.sh >/tmp/demo1.log 2>&1; r1=$?
(cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 tools/run_check.py $prop quick > /tmp/seed_check.log 2>&1); rc=$?
git -C /repo checkout -q -- .
caught=MISSED; [ $rc = 1 ] && grep -q "VIOLATION property=$prop" /tmp/seed_check.log && caught=CAUGHT
echo "$id ($prop): demo clean=$r0 patched=$r1 build=${b:-?} stable-missing=$miss check=$rc $caught $(grep -m1 'key:' /tmp/seed_check.log)"
done
