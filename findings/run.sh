#!/bin/bash
# Runs every demonstration against the headers in ${1:-/repo}.  CXX=clang++ for F11.
d=$(cd "$(dirname "$0")" && pwd); repo=${1:-/repo}; t=$(mktemp -d); rc=0
for f in "$d"/F*.cc; do for m in "-std=c++20" "-std=c++14 -DC14" "-std=c++17 -DC14"; do
  n=$(basename "$f" .cc)
  if ! ${CXX:-g++} $m -I"$repo" -w -g -fsanitize=address,undefined -fno-sanitize-recover=all "$f" -o "$t/x" 2>"$t/log"; then r="does not compile"; rc=1
  elif timeout 60 "$t/x" >"$t/log" 2>&1; then r=ok; else r="FAILS at run time"; rc=1; fi
  echo "$n [$m]: $r"
done; done; rm -rf "$t"; exit $rc
