#!/bin/bash
# tryseed.sh ID...: demo on the unchanged tree, then with the patch: tests, demo and the check of its property; undone afterwards
cd /repo || exit 2
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash $d/demo.sh >/tmp/seed.out 2>&1; base=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  tests=skipped
  if [ -z "$NOTEST" ]; then bash /opt/vp/build.sh >/dev/null 2>&1; tests=$(bash /opt/vp/test.sh /tmp/seed.json 2>/dev/null | tail -1); fi
  bash $d/demo.sh >/tmp/seed2.out 2>&1; bad=$?
  (cd /verif && python3 check.py $prop --tier quick) >/tmp/seed3.out 2>&1; chk=$?
  git checkout -q -- .
  echo "$id [$prop]: demo base=$base seeded=$bad; tests: $tests; check rc=$chk $(grep -c VIOLATION /tmp/seed3.out) $(grep VIOLATION /tmp/seed3.out | head -1 | cut -c1-200)"
  [ $base -ne 0 ] && tail -5 /tmp/seed.out
  [ $bad -eq 0 ] && tail -5 /tmp/seed2.out
done
[ -z "$NOTEST" ] && bash /opt/vp/build.sh >/dev/null 2>&1
git status --short
