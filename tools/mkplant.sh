#!/bin/bash
# mkplant.sh ID PROPERTY: makes /verif/seeded/ID from /repo's uncommitted change and /tmp/plant/ID.rs,
# with NEEDS and BREAKS from the environment; then confirms it and runs the property's check against it.
set -u
id=$1; prop=$2
d=/verif/seeded/$id
mkdir -p $d
git -C /repo diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change in /repo"; exit 1; }
git -C /repo checkout -- .
cp /verif/tools/kit/{Cargo.toml.in,demo.sh,kit.rs,main.rs} /verif/sim/src/{chain.rs,stubs.rs,util.rs} $d/
cp /verif/sim/Cargo.lock $d/Cargo.lock.in
sed -i 's/name = "hplsim"/name = "plantdemo"/' $d/Cargo.lock.in
cp /tmp/plant/$id.rs $d/demo.rs
chmod +x $d/demo.sh
PROP=$prop NEEDS="$NEEDS" BREAKS="$BREAKS" python3 - > $d/meta.json <<'P'
import json,os
print(json.dumps({"property":os.environ["PROP"],"needs":os.environ["NEEDS"],"what_it_breaks":os.environ["BREAKS"]},indent=1))
P
/verif/tools/tryplant.sh $id
