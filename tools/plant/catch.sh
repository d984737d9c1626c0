#!/bin/bash
# catch.sh ID[:Cnn] ... : run the check of each planted bug (or the named check) against a scratch copy with the bug applied
cd "$(dirname "$0")/../.."
for a in "$@"; do
  id=${a%%:*}
  c=${a#*:}; [ "$c" = "$a" ] && c=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  w=/tmp/catch.$$
  cp -a /repo $w; rm -rf $w/target
  git -C $w apply "$PWD/seeded/$id/patch.diff" || echo PATCH FAILS
  t0=$SECONDS
  VERIF_REPO=$w ./run.py $c > $w.log 2>&1; rc=$?
  echo "$id $c rc=$rc $((SECONDS-t0))s $(grep -c '^VIOLATION' $w.log) $(grep '^VIOLATION\|^ERROR' $w.log | head -2 | cut -c1-220)"
  rm -rf $w $w.log
done
