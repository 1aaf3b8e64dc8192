#!/bin/bash
# tryseed.sh ID...: confirms a planted bug in a scratch copy of /repo (built, tested, demo both ways)
for id in "$@"; do
D=/verif/seeded/$id
R=/tmp/seedrepo
if [ ! -d $R ]; then cp -a /repo $R; fi
git -C $R fetch -q /repo HEAD && git -C $R checkout -qf FETCH_HEAD
git -C $R apply --check $D/patch.diff || { echo "$id: patch does not apply"; continue; }
bash $D/demo.sh > /tmp/demo.log 2>&1; a=$?
git -C /repo apply $D/patch.diff
bash /opt/vp/build.sh > /tmp/build.log 2>&1; b=$?
bash /opt/vp/test.sh /tmp/t.json > /dev/null 2>&1; f=$(python3 -c "import json;d=json.load(open('/tmp/t.json'));print(len(d['passed']))")
bash $D/demo.sh > /tmp/demo2.log 2>&1; c=$?
git -C /repo checkout -q -- .
echo "$id: unchanged $a build $b passed $f patched $c $(tail -1 /tmp/demo2.log | head -c 150)"
done
