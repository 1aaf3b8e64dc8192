#!/bin/bash
# catch.sh ID...: does the check of the planted bug's property see it?
for id in "$@"; do
D=/verif/seeded/$id
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
git -C /repo apply $D/patch.diff || continue
python3 /verif/bin/check.py $P ${TIER:-quick} > /tmp/catch.$id.log 2>&1; r=$?
git -C /repo checkout -q -- .
echo "$id: $P exit $r; $(grep -m1 -A0 'scenario' /tmp/catch.$id.log | head -c 160)"
done
