#!/bin/bash
# Runs the check of each planted bug named (default: all) against a scratch copy of /repo with it.
cd "$(dirname "$0")/.."
[ $# = 0 ] && set -- $(ls seeded)
for id; do
    d=$(mktemp -d /tmp/catch-XXXXXX)
    git clone -q /repo "$d/r"
    if git -C "$d/r" apply "$PWD/seeded/$id/patch.diff"; then
        p=${PROP:-$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' seeded/$id/meta.json)}
        REPO=$d/r ./check $p > "$d/log" 2>&1
        echo "$id: exit $? $(grep -m1 VIOLATION "$d/log")"
    else echo "$id: patch does not apply"; fi
    rm -rf "$d"
done
