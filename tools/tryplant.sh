#!/bin/bash
# tryplant.sh ID [check]: confirms a planted bug (tests pass, demo differs) and runs its property's check on it.
set -u
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
export DEMO_TARGET_DIR=/tmp/plant/target
mkdir -p /tmp/plant
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
cd /repo
trap 'git -C /repo checkout -- .' EXIT
if [ "${2:-}" != check ]; then
  bash $d/demo.sh > /tmp/plant/$id.clean; c=$?
  [ $c = 0 ] || { echo "$id: demo rc=$c on clean: $(tail -3 /tmp/plant/$id.clean)"; exit 1; }
fi
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
if [ "${2:-}" != check ]; then
  bash $d/demo.sh > /tmp/plant/$id.bug; b=$?
  [ $b = 1 ] || { echo "$id: demo rc=$b on patched: $(tail -3 /tmp/plant/$id.bug)"; exit 1; }
  bash /opt/vp/build.sh >/tmp/plant/$id.build 2>&1 || { echo "$id: does not build: $(tail -5 /tmp/plant/$id.build)"; exit 1; }
  bash /opt/vp/test.sh /tmp/plant/$id.tests.json >/dev/null 2>&1
  t=$(python3 -c "
import json;p=set(json.load(open('/tmp/plant/$id.tests.json'))['passed']);b=json.load(open('/opt/vp/BASELINE.json'))['stable']
print([x for x in b if x not in p])" | cut -c1-400)
  echo "$id: tests not passing: $t; demo: $(tail -1 /tmp/plant/$id.bug)"
fi
s=$(date +%s)
for p in $prop ${ALSO:-}; do
VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 /verif/check.sh $p quick > /tmp/plant/$id.$p.out 2>&1; r=$?
echo "$id: check $p rc=$r $(grep -m1 VIOLATION /tmp/plant/$id.$p.out) [$(( $(date +%s)-s )) s]"
done
