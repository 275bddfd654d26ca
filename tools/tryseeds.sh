#!/bin/bash
# dev helper: run the check of each planted bug on a scratch copy. usage: tryseeds.sh [id ...]
cd /verif/seeded; ids="$@"; [ -z "$ids" ] && ids=$(ls)
one() { d=$(mktemp -d /tmp/try.XXXX); (cd /repo && git archive HEAD | tar x -C $d); cd $d && git init -q . && git apply /verif/seeded/$1/patch.diff || echo "$1: DOES NOT APPLY"
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$1/meta.json'))['property'])")
 MOLLINT_JOBS=${TJ:-2} MOLLINT_REPO=$d MOLLINT_OUT=$d/.o python3 /verif/check.py $p > $d/.out 2>&1; rc=$?
 echo "$1 $p rc=$rc $(grep -c VIOLATION $d/.out) $(grep -A1 VIOLATION $d/.out | sed -n 2p | cut -c1-160)"; find $d -delete; }
export -f one
echo $ids | tr ' ' '\n' | xargs -P ${TP:-4} -I{} bash -c 'one {}'
