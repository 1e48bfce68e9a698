#!/bin/bash
# seedcheck.sh ID...: does each planted change build, pass the stable tests, fail its demo, and is it caught by its check?
cd /verif
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cp -r $d /tmp/seeddemo.$$
  (cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1 && timeout 300 bash /tmp/seeddemo.$$/demo.sh >/tmp/demo.out 2>&1); clean=$?
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/test.sh /tmp/t.json >/tmp/build.out 2>&1
  stable=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];p=json.load(open('/tmp/t.json'))['passed'];print(all(x in p for x in b))")
  (cd /repo && timeout 300 bash /tmp/seeddemo.$$/demo.sh >/tmp/demo2.out 2>&1); pat=$?
  s=$(date +%s)
  VERIF_SEED=${VERIF_SEED:-1} python3 lib/check.py $prop quick >/tmp/check.out 2>&1; rc=$?
  e=$(date +%s)
  git -C /repo checkout -- .
  bash /opt/vp/build.sh >/dev/null 2>&1
  echo "$id: demo clean=$clean patched=$pat stable=$stable check $prop rc=$rc ($((e-s)) s) $(grep -m1 VIOLATION /tmp/check.out)"
  rm -rf /tmp/seeddemo.$$
done
