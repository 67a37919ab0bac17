#!/bin/bash
# usage: plant.sh ID [notest] : verify seeded/ID in a scratch copy (/tmp/sc/repo)
ID=$1; D=/verif/seeded/$ID
. /opt/vp/env.sh
FEATURES="batch,dev-graph,gadget-traces,nightly,test-dependencies,test-dev-graph"
export CARGO_TARGET_DIR=/tmp/sc/target
[ -d /tmp/sc/repo ] || git clone -q /repo /tmp/sc/repo
cd /tmp/sc/repo && git fetch -q && git reset -q --hard $(git -C /repo rev-parse HEAD) && git clean -qfd
T=$(mktemp -d); cp $D/* $T/; rm -f $T/patch.diff $T/meta.json
export DEMO_TARGET=/tmp/sc/dtarget DEMO_REPO=/tmp/sc/repo
bash $T/demo.sh > /tmp/sc/demo.$ID.clean 2>&1; c=$?
git apply $D/patch.diff || { echo "$ID: does not apply"; exit 1; }
bash $T/demo.sh > /tmp/sc/demo.$ID.bug 2>&1; b=$?
echo "$ID demo clean=$c bug=$b"
tail -3 /tmp/sc/demo.$ID.bug
if [ "$2" != notest ]; then
cargo test --workspace --no-fail-fast --locked --offline --features "$FEATURES" -- --test-threads 8 > /tmp/sc/test.$ID.log 2>&1
python3 /opt/vp/results.py /tmp/sc/res.$ID.json cargo:/tmp/sc/test.$ID.log
python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/sc/res.$ID.json'))['passed'])
print('$ID', 'TESTS PASS' if b<=p else ('TESTS FAIL', sorted(b-p)[:6]))"
fi
git checkout -q -- .
rm -rf "$T"
