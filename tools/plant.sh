#!/bin/bash
# usage: plant.sh ID [demo_builds.sh]   Confirms the change made in the scratch copy /tmp/plant (created from /repo when
# absent) as the planted bug ID: writes seeded/ID/patch.diff, runs the stable tests with it, and the
# demonstration with and without it. seeded/ID/{demo.rs,meta.json} must exist.
set -e
id="$1"; d=/verif/seeded/$id; w=/tmp/plant
. /opt/vp/env.sh
export CARGO_TARGET_DIR=$w/target
cd $w
git diff > $d/patch.diff
test -s $d/patch.diff || { echo "no change"; exit 1; }
cp /verif/tools/${2:-demo.sh} $d/demo.sh
cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/plant.log 2>&1 || true
python3 /opt/vp/results.py /tmp/plant.json "cargo:/tmp/plant.log" >/dev/null 2>&1 || true
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/plant.json'))
miss=[t for t in b if t not in r['passed']]
print("tests:", "pass" if not miss else "FAIL %s" % miss[:5])
P
unset CARGO_TARGET_DIR
set +e
echo -n "demo with the change: "; (bash $d/demo.sh >/tmp/plant.demo 2>&1; echo "exit $?"); tail -3 /tmp/plant.demo
git stash -q
echo -n "demo without it: "; (bash $d/demo.sh >/tmp/plant.demo 2>&1; echo "exit $?"); tail -3 /tmp/plant.demo
git stash drop -q
