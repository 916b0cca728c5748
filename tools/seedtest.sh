#!/bin/bash
# usage: seedtest.sh <id> [check...]   confirms a planted bug: applies, builds, tests, demo before/after, and runs its check
S=/verif/seeded/$1; shift
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
T=$(mktemp -d); cp -r $S/. $T/; rm -f $T/*.diff $T/meta.json
bash $T/demo.sh >/tmp/demo0.log 2>&1; a=$?
git apply $S/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/seedbuild.log 2>&1; b=$?
t=$(bash /opt/vp/test.sh /tmp/seedout.json 2>/dev/null | grep -o "[0-9]* passed, [0-9]* failed")
bash $T/demo.sh >/tmp/demo1.log 2>&1; c=$?
[ -n "$NOCHECK" ] || for k in ${*:-$P}; do (cd /verif; timeout 900 python3 run.py $k >/tmp/seedcheck.$k.log 2>&1; echo "   check $k: $? $(grep -c ^VIOLATION /tmp/seedcheck.$k.log) violations; $(grep -m1 'key=' /tmp/seedcheck.$k.log | cut -c1-200)"); done
git checkout -q -- .
rm -rf $T
echo "$(basename $S): demo clean $a, build $b, tests $t, demo patched $c"
