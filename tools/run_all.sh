#!/bin/bash
# Runs every check of MANIFEST.json and prints how each ended.
cd "$(dirname "$0")/.." || exit 2
for id in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
    ./check.sh "$id" >/tmp/run_all.out 2>&1
    rc=$?
    echo "$id rc=$rc $(grep -E 'histories|VIOLATION|KNOWN|inconclusive' /tmp/run_all.out | cut -c1-160 | tr '\n' ' ')"
done
