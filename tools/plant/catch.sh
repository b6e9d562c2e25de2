#!/bin/bash
# usage: catch.sh ID... -- apply each planted bug to /repo, run the checks of its property (and those in CHECKS), undo
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  for c in ${CHECKS:-$prop}; do
    t0=$SECONDS
    bash /verif/check.sh "$c" quick > /tmp/catch.log 2>&1; rc=$?
    echo "$id $c rc=$rc $((SECONDS-t0))s $(grep -c '^VIOLATION property='$c /tmp/catch.log) $(grep '=>' /tmp/catch.log | head -1 | cut -c1-200)"
    h=$(grep -o "^$c [a-z_0-9]*:" /tmp/catch.log | tail -1 | cut -d' ' -f2 | tr -d :)
    [ "$c" = "$prop" ] && { grep -v "^$id	" /verif/tools/plant/caught.tsv > /tmp/caught.tsv; printf '%s\t%s\t%s\t%s\n' "$id" "$c" "rc=$rc" "$h" >> /tmp/caught.tsv; sort /tmp/caught.tsv > /verif/tools/plant/caught.tsv; }
  done
  git -C /repo checkout -q -- .
done
