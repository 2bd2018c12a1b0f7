#!/bin/bash
# Development tool: applies every planted change (or those matching $1) to /repo in turn and runs the check of its property.
cd /verif
for d in seeded/*/; do
  id=$(basename $d); [[ $id =~ ${1:-.} ]] || continue
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $PWD/$d/patch.diff || { echo "$id: patch does not apply"; continue; }
  s=$SECONDS; out=$(timeout 900 ./check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $((SECONDS-s))s $(grep -c ^VIOLATION <<<"$out") $(grep VIOLATION <<<"$out" | head -1)"
done
