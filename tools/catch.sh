#!/bin/bash
# catch.sh [ID...]: run the quick check of the property of each planted bug against it. The check sees a private copy of
# /repo with the bug, mounted over /repo in a mount namespace of its own: /repo itself is not modified.
cd "$(dirname "$0")/.." || exit 2
for d in ${@:-$(ls seeded)}; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
    w=$(mktemp -d /tmp/catch.XXXXXX)
    cp -a /repo "$w/repo"; cp -a /verif "$w/verif"; git -C "$w/repo" checkout -q -- .
    git -C "$w/repo" apply "$PWD/seeded/$d/patch.diff" || { echo "$d: does not apply"; rm -rf "$w"; continue; }
    s=$(date +%s)
    VERIF_SEED=1 VERIF_TIER=quick unshare -m bash -c "mount --bind $w/repo /repo && mount --bind $w/verif /verif && cd /verif && exec timeout 900 ./check $p quick" > "$w/out" 2>&1; rc=$?
    echo "$d $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 '^VIOLATION' "$w/out")"
    rm -rf "$w"
    python3 - "$d" "$rc" <<'P'
import json, sys
try: c = json.load(open("tools/catches.json"))
except FileNotFoundError: c = {}
c[sys.argv[1]] = {"1": "caught", "0": "MISSED"}.get(sys.argv[2], "no answer")
json.dump(c, open("tools/catches.json", "w"), indent=0, sort_keys=True)
P
done
