#!/bin/bash
# refactor.sh KIND [Cxx…]: run quick checks on a private copy of /repo rewritten by refactor.py (see there for the kinds),
# after its stable tests.  All have to stay quiet.  Like catch.sh it never modifies /repo itself.
cd "$(dirname "$0")/.." || exit 2
k=$1; shift
w=$(mktemp -d /tmp/refactor.XXXXXX)
cp -a /repo "$w/repo"; cp -a /verif "$w/verif"
python3 tools/refactor.py "$w/repo/src/pybgl" ${k//+/ } || exit 2
unshare -m bash -c "mount --bind $w/repo /repo && mount --bind $w/verif /verif && cd /repo && bash /opt/vp/test.sh $w/t.json >/dev/null 2>&1; cd /verif
for p in ${*:-$(ls mc/checks | sed -n 's/^c\([0-9]*\)\.py$/C\1/p' | tr '\n' ' ')}; do VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check \$p quick > $w/out 2>&1; rc=\$?; [ \$rc = 0 ] || { echo \"$k \$p rc=\$rc \$(grep -m1 ^VIOLATION $w/out)\"; tail -5 $w/out; cp -r $w/verif/replay \$w/ 2>/dev/null; }; done
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open('$w/t.json'))
ok=set(t.get('passed', [k for k,v in t.items() if v in ('passed', True)]))
print('$k', 'lost tests:', [x for x in b if x not in ok])
P"
rm -rf "$w"
