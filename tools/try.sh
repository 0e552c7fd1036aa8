#!/bin/bash
# try.sh ID...   runs the property's check (or the checks in $CHECKS) against planted bugs, in /repo
cd /verif || exit 2
for id in "$@"; do
    d=/verif/seeded/$id
    p=${CHECKS:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
    [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
    git -C /repo apply "$d/patch.diff" || { echo "$id does not apply"; continue; }
    for c in $p; do
        s=$(date +%s)
        out=$(timeout 900 bash check.sh "$c" "${TIER:-quick}" 2>&1); rc=$?
        echo "$id $c rc=$rc $(($(date +%s) - s))s $(grep -c '^VIOLATION' <<<"$out") $(grep -m1 '^VIOLATION\|^error' <<<"$out")"
        [ $rc = 2 ] && tail -5 <<<"$out"
    done
    git -C /repo checkout -- .
done
