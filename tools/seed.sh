#!/bin/bash
# seed.sh ID: confirms seeded/ID in the scratch copy /tmp/x/w (base demo ok, patch builds, tests pass, demo fails)
S=/verif/seeded/$1; W=/tmp/x/w
[ -d $W ] || cp -a /repo $W
cd $W && git fetch -q /repo HEAD && git checkout -q --force FETCH_HEAD && git clean -fdq
cp /verif/tools/demo/{d.py,fmt.py,demo.sh} $S/; chmod +x $S/demo.sh
cargo build --offline -q 2>/dev/null || exit 9
bash $S/demo.sh >/tmp/x/demo0.log 2>&1 || { echo "$1: demo fails on base"; tail -5 /tmp/x/demo0.log; exit 1; }
git apply $S/patch.diff || { echo "$1: patch does not apply"; exit 1; }
cargo build --workspace --offline -q 2>/tmp/x/build.log || { echo "$1: does not build"; grep -A8 ^error /tmp/x/build.log | head -40; exit 1; }
if bash $S/demo.sh >/tmp/x/demo1.log 2>&1; then echo "$1: demo passes with the patch"; exit 1; fi
tail -2 /tmp/x/demo1.log
P=$(cargo test --workspace --no-fail-fast --offline -- --test-threads 1 2>/dev/null | grep -c "^test .* ok$")
git checkout -q --force FETCH_HEAD
echo "$1: confirmed, $P tests pass"
