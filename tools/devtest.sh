#!/bin/bash
# devtest.sh ID...: like bugtest.sh on the working copies beside this file, without the stable tests
V=$(cd "$(dirname "$0")/.." && pwd); R=$(cd "$V/../repo" && pwd); . /opt/vp/env.sh
build() { (cd $R && export CARGO_TARGET_DIR=$R/target && cargo test $ARGS --no-run) >/tmp/dt_build.log 2>&1; }
git -C $R checkout -q -- .; build || { echo "clean tree does not build"; exit 1; }
for id in "$@"; do (cd $R && bash $V/seeded/$id/demo.sh >/tmp/dt_demo0_$id.log 2>&1); r=$?; [ $r = 0 ] || echo "$id: clean demo rc $r"; done
for id in "$@"; do
  B=$V/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
  git -C $R apply $B/patch.diff || { echo "$id: patch does not apply"; continue; }
  if build; then
    (cd $R && bash $B/demo.sh >/tmp/dt_demo_$id.log 2>&1); d=$?
    (cd $V && . ./env.sh && timeout 900 python3 check.py $P >/tmp/dt_check_$id.log 2>&1); c=$?
    echo "$id [$P]: demo rc $d (want !=0); check rc $c $(grep -c VIOLATION /tmp/dt_check_$id.log) violations, $(tail -1 /tmp/dt_check_$id.log | cut -c1-150)"
  else echo "$id: does not build"; grep -m3 -A5 "error" /tmp/dt_build.log; fi
  git -C $R checkout -q -- .
done
echo done
