#!/bin/bash
# Development aid: run the check of each planted bug's property against a patched scratch copy.
# usage: try_seeds.sh [ids...]
V=$(cd "$(dirname "$0")/.." && pwd)
R=${VERIF_REPO:-/repo}
cd $V/seeded || exit 1
for id in ${@:-*}; do
    rm -rf /tmp/seedrun$$; mkdir -p /tmp/seedrun$$
    rsync -a $R/rsciio /tmp/seedrun$$/
    (cd /tmp/seedrun$$ && git init -q . && git apply -p1 $V/seeded/$id/patch.diff) || echo "$id DOES NOT APPLY"
    p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
    out=$(VERIF_REPO=/tmp/seedrun$$ $V/check.sh $p 2>&1); rc=$?
    echo "$id $p exit=$rc $(echo "$out" | grep -a VIOLATION | head -1)"
done
rm -rf /tmp/seedrun$$
