#!/bin/bash
# seedtest.sh ID: the demo passes on the tree, the patched tree builds and passes its tests, the demo fails on it.
# CHECK="C01 C02" also runs those checks' search on the patched tree ($SIM: a copy of sim/ that depends on $REPO)
id=$1; d=/verif/seeded/$id; REPO=${REPO:-/tmp/dev/repo}; SIM=${SIM:-/tmp/dev/sim}; SECS=${SECS:-16}
git -C $REPO checkout -q -- . ; cd $REPO
[ -z "$NOBASE" ] && { bash $d/demo.sh > /tmp/demo.base 2>&1; echo "demo on the tree: $?"; tail -5 /tmp/demo.base; }
git apply $d/patch.diff || exit 1
[ -z "$NOTEST" ] && bash ${TESTS:-/tmp/dev/tests.sh} 2>&1 | tail -2
[ -z "$NODEMO" ] && { bash $d/demo.sh > /tmp/demo.bug 2>&1; echo "demo on the patched tree: $?"; tail -5 /tmp/demo.bug; }
if [ -n "$CHECK" ]; then
  . /verif/sim/env.sh; cd $SIM
  for b in "target:" "target-mutauth:--no-default-features --features mutauth" "target-none:--no-default-features"; do
    t=${b%%:*}; a=${b#*:}
    cargo build -q --offline --target-dir $SIM/$t $a 2>&1 | grep '^error' -A5
    for p in $CHECK; do
      echo "$t $p: $($SIM/$t/debug/spdmsim search --prop $p --seed ${SEED:-1} --seconds $SECS --threads 8 --out /tmp/st.json --replays /tmp/st-replays --known /verif/known-findings.txt >/dev/null 2>&1; python3 -c 'import json
r=json.load(open("/tmp/st.json"))
print("; ".join("%s in %d of %d runs"%(f["what"],f["runs"],r["runs"]) for f in r["found"] if not f["known"]) or "nothing in %d runs"%r["runs"])')"
    done
  done
fi
git -C $REPO checkout -q -- .
