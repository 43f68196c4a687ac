#!/bin/bash
# try_seed.sh ID [CHECK...]: does the planted bug count, and which checks see it?
# Applies it to /repo and undoes it.
cd "$(dirname "$0")/.." || exit 2
id=$1; shift
dir=seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
export DEMO_TARGET=${DEMO_TARGET:-/tmp/demotarget}
[ -z "$(git -C /repo status --porcelain)" ] || { echo "dirty /repo"; exit 2; }
bash $dir/demo.sh >/tmp/demo.$id.clean 2>&1; echo "$id demo clean: $?"
git -C /repo apply "$PWD/$dir/patch.diff" || { echo "patch does not apply"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
bash $dir/demo.sh >/tmp/demo.$id.bug 2>&1; echo "$id demo patched: $? $(grep FAILED /tmp/demo.$id.bug | head -1)"
bash /opt/vp/build.sh >/tmp/seed.$id.build 2>&1; echo "$id build: $?"
bash /opt/vp/test.sh /tmp/seed.$id.json >/tmp/seed.$id.test 2>&1; echo "$id tests: $? $(grep -h 'test result' /tmp/seed.$id.test | head -1)"
for c in $prop "$@"; do
    s=$(date +%s)
    VERIF_SEED=1 VERIF_TIER=quick ./check.sh $c >/tmp/seed.$id.$c 2>&1
    echo "$id check $c: $? $(($(date +%s)-s))s $(grep -h VIOLATION /tmp/seed.$id.$c | head -1 | cut -c1-200)"
done
