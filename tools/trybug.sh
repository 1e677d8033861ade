#!/bin/bash
# trybug.sh ID [checks...]  -- demo without/with the patch, the stable tests and the
# checks (default: the property's own) in a scratch copy; NOTEST=1 skips the tests.
ID=$1; shift
S=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
W=$(mktemp -d /tmp/trybug_XXXX)
cp -a /repo $W/repo; cd $W/repo
bash $S/demo.sh > $W/d0 2>&1; a=$?
git apply $S/patch.diff || { echo "$ID APPLY-FAILED"; exit; }
bash $S/demo.sh > $W/d1 2>&1; b=$?
echo "$ID demo: unpatched=$a patched=$b $( [ $a = 0 ] && [ $b != 0 ] && echo OK || { echo BAD; tail -n 3 $W/d0; tail -n 3 $W/d1; } )"
if [ -z "$NOTEST" ]; then
  (. /opt/vp/env.sh; cd $W/repo; PYTHONPATH=$W/repo timeout 800 python -m pytest -q -p no:cacheprovider --timeout=300 -o junit_family=xunit2 --junitxml=$W/j.xml) > $W/t 2>&1
  echo "$ID tests: $(tail -1 $W/t)"; grep -E '^FAILED|^ERROR' $W/t | cut -c1-200 | head -n 8
  git -C $W/repo checkout -q -- . ; git -C $W/repo clean -fdq; git apply $S/patch.diff
fi
for c in ${@:-$P}; do
  (cd /verif; VERIF_SEED=${SEEDV:-1} VERIF_REPO=$W/repo timeout 900 python3 run.py $c --no-evidence > $W/c 2>&1; r=$?
  echo "$ID check $c rc=$r $(grep -m3 VIOLATION $W/c | cut -c1-250)")
done
rm -rf "$W"
