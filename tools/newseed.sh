#!/bin/bash
# newseed.sh ID PROPERTY FEATURES "needs" "what it breaks" < demo main.rs
# takes the uncommitted change in $REPO (a scratch clone of /repo) as the planted bug, tests it and undoes it
id=$1; prop=$2; feat=$3; d=/verif/seeded/$id; export REPO=${REPO:-/tmp/dev/repo}
mkdir -p $d/src
cat > $d/src/main.rs
git -C $REPO diff --quiet || git -C $REPO diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change in $REPO"; exit 1; }
cp /verif/sim/src/{plan,prim,world,crypto,exec,wire}.rs $d/src/
cp /verif/tools/demo/lib.rs $d/src/lib_.rs
cp /verif/tools/demo/demo.sh /verif/tools/demo/Cargo.toml.in $d/
sed 's/name = "spdmsim"/name = "demo"/' /verif/sim/Cargo.lock > $d/Cargo.lock
echo "$feat" > $d/features
python3 - "$id" "$prop" "$4" "$5" <<'P'
import sys,json
i,p,n,w=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open("/verif/seeded/%s/meta.json"%i,"w"),indent=1)
P
bash /verif/tools/seedtest.sh $id
