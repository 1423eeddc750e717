#!/bin/bash
# plant.sh ID [check|full]: try /verif/seeded/ID in a scratch clone: demo on the base, patch, build, stable tests, demo, check.
id=$1; mode=${2:-full}; S=/verif/seeded/$id; W=/tmp/wt
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
[ -d $W ] || git clone -q /repo $W
git -C $W fetch -q origin && git -C $W checkout -q -f $(git -C /repo rev-parse HEAD) && git -C $W clean -qfd -e _build
sed "s#/repo#$W#g" /opt/vp/build.sh > /tmp/wt-build.sh; sed "s#/repo#$W#g; s#/opt/vp/build.sh#/tmp/wt-build.sh#" /opt/vp/test.sh > /tmp/wt-test.sh
if [ "$mode" = full ]; then
bash /tmp/wt-build.sh > /tmp/wt.log 2>&1 || { echo "base build failed"; exit 1; }
(cd $W && timeout 300 bash $S/demo.sh) > /tmp/wt-demo0.log 2>&1; d0=$?
fi
git -C $W apply $S/patch.diff || { echo "patch does not apply"; exit 1; }
if [ "$mode" = full ]; then
bash /tmp/wt-build.sh > /tmp/wt.log 2>&1 || { echo "patched build failed"; tail -5 /tmp/wt.log; git -C $W checkout -q -f .; exit 1; }
(cd $W && timeout 300 bash $S/demo.sh) > /tmp/wt-demo1.log 2>&1; d1=$?
bash /tmp/wt-test.sh /tmp/wt.json > /tmp/wt-test.log 2>&1; t=$(python3 /verif/tools/stable.py /tmp/wt.json)
fi
cp /verif/evidence/$prop.json /tmp/ev-$prop.json 2>/dev/null
VERIF_REPO=$W VERIF_BUILD=/tmp/wtb python3 /verif/run.py $prop > /tmp/wt-check.log 2>&1; c=$?
cp /tmp/ev-$prop.json /verif/evidence/$prop.json 2>/dev/null
git -C $W checkout -q -f .
echo "$id ($prop): demo base=$d0 patched=$d1; tests: $t; check exit=$c: $(tail -2 /tmp/wt-check.log | head -1 | cut -c1-200)"
