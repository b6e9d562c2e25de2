#!/bin/bash
# usage: plant.sh ID  -- DIR /verif/seeded/ID holds main.rs, meta.json, and either patch.diff or
# the change is in the scratch copy /tmp/plant (git diff there is taken). Confirms everything.
set -u
id=$1; s=/verif/seeded/$id; w=/tmp/plant
cp /verif/tools/plant/demo.sh /verif/tools/plant/kit.rs /verif/tools/plant/lock.txt "$s/"
[ -d $w ] || cp -a /repo $w
cd $w || exit 2
if [ -e "$s/patch.diff" ]; then git checkout -q -- . && git apply "$s/patch.diff" || exit 2; else git diff > "$s/patch.diff"; fi
[ -s "$s/patch.diff" ] || { echo "empty patch"; exit 2; }
cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/plant.log 2>&1
python3 /opt/vp/results.py /tmp/plant.json cargo:/tmp/plant.log >/dev/null
python3 - <<'P' || { echo "$id: stable tests fail or build broken"; grep -E "^error|FAILED|failed" /tmp/plant.log | head; git checkout -q -- .; exit 1; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/plant.json'))
def names(x):
    for k in ('stable','passed','tests','pass'):
        if k in x: 
            v=x[k]; return set(v if isinstance(v,list) else [n for n,s in v.items() if s in ('pass','passed',True)])
    sys.exit('keys %s'%list(x))
miss=names(b)-names(r)
if miss: print('not passing:',miss); sys.exit(1)
P
# the same, but with the dependencies built once
sed 's#^unset CARGO_TARGET_DIR CARGO_BUILD_TARGET#export CARGO_TARGET_DIR=/tmp/plant.target#; s#\$dir/target/debug/demo#/tmp/plant.target/debug/demo#' "$s/demo.sh" > "$s/.demo.sh"
bash "$s/.demo.sh" > /tmp/plant.demo1 2>&1; rc1=$?
git checkout -q -- .
bash "$s/.demo.sh" > /tmp/plant.demo0 2>&1; rc0=$?
rm -f "$s/.demo.sh"
echo "$id: tests ok, demo with patch $rc1 ($(tail -1 /tmp/plant.demo1)), without $rc0 ($(tail -1 /tmp/plant.demo0))"
[ $rc0 = 0 ] && [ $rc1 != 0 ] && [ $rc1 != 3 ]
