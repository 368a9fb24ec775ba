#!/bin/bash
# seed.sh ID: confirms a planted bug (/verif/seeded/ID) in /repo, then undoes it.
s=/verif/seeded/$1
fin() { git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1; }
cd /repo || exit 9
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 9; }
bash /opt/vp/build.sh >/tmp/seed.log 2>&1 || { echo "clean build fails"; exit 9; }
bash "$s/demo.sh" >/tmp/seed.clean 2>&1; c=$?
git apply "$s/patch.diff" || { echo "patch does not apply"; exit 9; }
trap fin EXIT
bash /opt/vp/build.sh >/tmp/seed.log 2>&1 || { echo "$1: patched build fails"; tail -5 /tmp/seed.log; exit 9; }
bash "$s/demo.sh" >/tmp/seed.patched 2>&1; p=$?
bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.log 2>&1
n=$(python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
base=b.get('stable') or b.get('passed') or b.get('tests')
print(len([t for t in base if t not in r['passed']]), [t for t in base if t not in r['passed']][:3])
PY
)
v=-
if [ -n "$2" ]; then bash /verif/check.sh "$2" >/tmp/seed.check 2>&1; v="check=$? $(grep VIOLATION /tmp/seed.check)"; fi
echo "$1: demo clean=$c patched=$p broken tests=$n $v"
[ $c = 0 ] || cat /tmp/seed.clean | tail -5
tail -3 /tmp/seed.patched
