#!/bin/bash
# catch.sh [ID...]: which planted bugs are caught by the check of their property
cd "$(dirname "$0")/.."
here=$PWD
repo=${VERIF_REPO:-/repo}
[ $# = 0 ] && set -- $(ls seeded)
[ -n "$(git -C $repo status --porcelain)" ] && { echo "$repo is not clean"; exit 2; }
for id in "$@"; do
    prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
    git -C $repo apply "$here/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
    out=$(./check $prop 2>&1); rc=$?
    git -C $repo checkout -q -- .
    echo "$id $prop rc=$rc $(echo "$out" | grep -m1 counterexample | cut -c1-120)"
done
