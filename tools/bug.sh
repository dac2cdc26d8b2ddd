#!/bin/bash
# bug.sh ID [nocheck]: applies seeded/ID/patch.diff to /repo, builds, runs the stable tests, the demo and the check of its property, undoes it.
V=/verif; B=$V/seeded/$1
cd /repo || exit 1
git diff --quiet || { echo "repo not clean"; exit 1; }
P=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
bash /opt/vp/build.sh >/dev/null 2>&1
D=$(mktemp -d /tmp/demo.XXXXXX); cp -r $B/. $D/; rm -f $D/*.diff $D/meta.json
(cd /repo; timeout 300 bash $D/demo.sh >/tmp/demo.out 2>&1); r0=$?
git apply $B/patch.diff || { echo "does not apply"; exit 1; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/tmp/bug.build 2>&1 || { echo "BUILD FAILED"; tail -5 /tmp/bug.build; exit 1; }
(cd /repo; timeout 300 bash $D/demo.sh >/tmp/demo.out2 2>&1); r1=$?
bash /opt/vp/test.sh /tmp/bug.json >/dev/null 2>&1
T=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/bug.json'))
print(sorted(set(b['stable'])-set(o['passed'])) or 0)
P
)
echo "$1 ($P): demo clean=$r0 patched=$r1 tests-lost=$T"
[ "$2" = nocheck ] && exit 0
s=$(date +%s)
cd $V; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $P > /tmp/bug.check 2>&1; c=$?
echo "  check exit=$c $(( $(date +%s)-s ))s: $(grep -h VIOLATION /tmp/bug.check | head -3)"
grep -A3 -m1 VIOLATION /tmp/bug.check | cut -c1-300
