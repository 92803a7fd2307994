#!/bin/bash
# sens.sh [--all-props] id...: runs each planted bug's own check on a scratch copy of the headers with the bug applied
mkdir -p /tmp/mut
for i in "$@"; do
  d=/verif/seeded/$i; m=/tmp/mut/$i; rm -rf "/tmp/mut/${i:?}"; mkdir -p $m; cp /repo/*.h $m; cp -r /repo/compile_checks $m 2>/dev/null
  (cd $m && patch -s -p1 < $d/patch.diff) || { echo "$i PATCH FAILS"; continue; }
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  for q in ${PROPS:-$p}; do
  VT_REPO=$m python3 /verif/run.py $q --tier quick --seed 1 > /tmp/mut/$i.$q.log 2>&1; rc=$?
  echo "$i $q rc=$rc $(grep -m1 VIOLATION /tmp/mut/$i.$q.log | cut -c1-200)"; done
  rm -rf "/tmp/mut/${i:?}"
done
