#!/bin/bash
# try.sh ID...: apply each planted bug to /repo, run its property's check, undo it
cd "$(dirname "$0")/.."
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
  t=$SECONDS
  python3 check.py ${CHECK:-$p} > /tmp/try.out 2>&1; r=$?
  git -C /repo checkout -q -- .
  echo "$id $p exit $r $((SECONDS-t))s $(grep -m1 -h 'VIOLATION\|NO ANSWER\|rror' /tmp/try.out | cut -c1-150)"
  [ $r = 1 ] || cp /tmp/try.out /tmp/try.$id.out
done
