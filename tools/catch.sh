#!/bin/bash
# catch.sh ID [PROP...]: applies seeded/ID to /repo, runs the quick checks (default: its property), undoes it
S=/verif/seeded/$1; shift
P=${@:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 9; }
git -C /repo apply $S/patch.diff || exit 9
for p in $P; do ( cd /verif; ./check $p quick > /tmp/x/catch.log 2>&1; RC=$?; echo "$(basename $S) $p rc=$RC $(grep -c VIOLATION /tmp/x/catch.log) :: $(head -1 /tmp/x/catch.log | cut -c1-150) :: $(tail -1 /tmp/x/catch.log)" ); done
git -C /repo checkout -- .
