#!/bin/bash
# costs.sh TIER: runs every check and records its cost in tools/costs.json
cd "$(dirname "$0")/.." || exit 2
for p in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
    VERIF_SEED=1 VERIF_TIER=$1 ./check $p $1 | tail -1 | tee /tmp/costs.line
    python3 - "$p" "$1" <<'P'
import json, re, sys
pid, tier = sys.argv[1:]
d = dict(re.findall(r"(\w+)=(\S+)", open("/tmp/costs.line").read()))
try: c = json.load(open("tools/costs.json"))
except FileNotFoundError: c = {}
c.setdefault(pid, {})[tier] = {"evaluations": int(d["evaluations"]), "wall": d["wall"].rstrip("s")}
json.dump(c, open("tools/costs.json", "w"), indent=0, sort_keys=True)
P
done
