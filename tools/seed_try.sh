#!/bin/bash
# seed_try.sh ID...: demo on the clean tree (0 expected), then with the patch: build, stable tests, demo (nonzero), the property's check (1 expected)
for id in "$@"; do
  d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /repo && bash $d/demo.sh >/tmp/demo0.log 2>&1); a=$?
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/build.log 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/t.json >/tmp/test.log 2>&1; t=$?
  (cd /repo && bash $d/demo.sh >/tmp/demo1.log 2>&1); c=$?
  (cd /verif && timeout 900 ./check $prop >/tmp/check-$id.log 2>&1); k=$?
  git -C /repo checkout -- .
  echo "$id [$prop] demo clean=$a build=$b tests=$t demo patched=$c check=$k $(grep -m1 VIOLATION /tmp/check-$id.log)"
done
