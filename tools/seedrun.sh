#!/bin/bash
# seedrun.sh ID [notest]   apply seeded/ID to /repo, build, run the stable tests, the demo and the property's check; undo
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
D=${SEEDDIR:-/verif/seeded}/$1
P=$(python3 -c "import json,sys;print(json.load(open('$D/meta.json'))['property'])")
bash /opt/vp/build.sh >/dev/null 2>&1
bash $D/demo.sh >/tmp/seed.demo0 2>&1; echo "demo unchanged: $?"
git apply $D/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || { echo BUILD FAILS; tail -5 /tmp/seed.build; }
if [ "$2" != notest ]; then bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1; python3 /verif/tools/cmpbase.py /tmp/seed.json; fi
bash $D/demo.sh >/tmp/seed.demo1 2>&1; echo "demo patched: $?"; tail -3 /tmp/seed.demo1
(cd /verif && timeout 900 ./check $P >/tmp/seed.check 2>&1; echo "check $P: $?"; grep -B1 VIOLATION /tmp/seed.check | head -4 | cut -c1-250; tail -1 /tmp/seed.check)
git checkout -- .
bash /opt/vp/build.sh >/dev/null 2>&1
git status --short
