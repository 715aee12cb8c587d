#!/bin/bash
# bugtest.sh ID...: patch, build, stable tests, demo (must fail), check (should report); undo; then demo on the clean tree.
for id in "$@"; do
  B=/verif/seeded/$id
  P=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
  git -C /repo apply $B/patch.diff || { echo "$id: patch does not apply"; continue; }
  if bash /opt/vp/build.sh >/tmp/bt_build.log 2>&1; then
    t=$(bash /opt/vp/test.sh /tmp/bt.json 2>&1 | tail -1)
    (cd /repo && bash $B/demo.sh >/tmp/bt_demo.log 2>&1); d=$?
    (cd /verif && python3 check.py $P >/tmp/bt_check_$id.log 2>&1); c=$?
    echo "$id [$P]: tests: $t; demo rc $d (want !=0); check rc $c $(grep -c VIOLATION /tmp/bt_check_$id.log) violations, $(tail -1 /tmp/bt_check_$id.log | cut -c1-150)"
  else echo "$id: does not build"; tail -5 /tmp/bt_build.log; fi
  git -C /repo checkout -q -- .
  [ -n "$NOCLEAN" ] || { bash /opt/vp/build.sh >/dev/null 2>&1; (cd /repo && bash $B/demo.sh >/tmp/bt_demo0.log 2>&1); echo "   clean demo rc $? (want 0)"; }
done
