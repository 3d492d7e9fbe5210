#!/bin/bash
# sensitivity.sh [bug ids]: run each planted bug's check against a scratch copy
# of /repo with the bug, and say whether it is caught.
cd "$(dirname "$0")/.." || exit 1
for dir in ${@:-$(ls seeded)}; do
    copy=$(mktemp -d /tmp/sens-XXXXXX)
    cp -a ${VERIF_BASE:-/repo} "$copy/repo"
    prop=$(python3 -c "import json;print(json.load(open('seeded/$dir/meta.json'))['property'])")
    if git -C "$copy/repo" apply "$PWD/seeded/$dir/patch.diff"; then
        out=$(VERIF_REPO=$copy/repo timeout 900 ./run.sh "$prop" quick 2>&1)
        rc=$?
        echo "$dir rc=$rc $(echo "$out" | head -1 | cut -c1-170)"
    else
        echo "$dir PATCH DOES NOT APPLY"
    fi
    rm -rf "$copy"
done
