#!/bin/bash
# quiet.sh [ids]: rewrite a scratch copy of /repo without changing what it does
# (tools/refactor.py) and run the checks against it: none may raise an alarm.
cd "$(dirname "$0")/.." || exit 1
copy=$(mktemp -d /tmp/quiet-XXXXXX)
cp -a /repo "$copy/repo"
python3 tools/refactor.py "$copy/repo" || exit 1
for i in ${@:-$(seq -f 'C%02g' 1 33)}; do
    out=$(VERIF_REPO=$copy/repo timeout 900 ./run.sh "$i" quick 2>&1)
    rc=$?
    echo "$i rc=$rc $(echo "$out" | head -1 | cut -c1-170)"
done
rm -rf "$copy"
