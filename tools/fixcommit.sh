#!/bin/bash
# fixcommit.sh PROP "fix: ..." "what failed" file...   run the stable tests, then commit a repair in /repo and list it
cd /repo || exit 1
p=$1; m=$2; w=$3; shift 3
bash /opt/vp/test.sh /tmp/out.json >/tmp/t.log 2>&1
python3 /verif/tools/cmpbase.py /tmp/out.json || exit 1
git add "$@" && git commit -qm "$m" || exit 1
echo "fixed: property=$p $(git rev-parse --short HEAD) $w" >> /verif/known-findings.txt
git status --short
