#!/bin/bash
# usage: catch.sh BUG [CHECK] : apply the planted bug to /repo, run its check, undo
B=$1; D=/verif/seeded/$B
P=${2:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
git -C /repo apply $D/patch.diff || exit 9
for p in $P; do
timeout 900 /verif/check $p ${TIER:-quick} > /tmp/catch.$B.$p 2>&1; r=$?
echo "$B $p exit=$r $(grep -m1 VIOLATION /tmp/catch.$B.$p | cut -c1-120)"
done
git -C /repo checkout -q -- .
