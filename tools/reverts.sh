#!/bin/bash
# reverts.sh: undo each "fix:" commit of /repo alone, in a scratch copy, and run
# the check of the property it is recorded for.
cd "$(dirname "$0")/.." || exit 1
grep '^fixed:' known-findings.txt | while read -r _ prop commit text; do
    prop=${prop#property=}
    copy=$(mktemp -d /tmp/revert-XXXXXX)
    cp -a /repo "$copy/repo"
    if git -C "$copy/repo" revert -n "$commit" >/dev/null 2>&1; then
        out=$(VERIF_REPO=$copy/repo timeout 900 ./run.sh "$prop" quick 2>&1)
        echo "$prop $commit rc=$? $(echo "$out" | head -1 | cut -c1-120)"
    else
        echo "$prop $commit DOES NOT REVERT ALONE"
    fi
    rm -rf "$copy"
done
