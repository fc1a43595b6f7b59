#!/bin/bash
# usage: tools/try_seed.sh ID [nocheck]: confirms seeded/ID in a scratch copy (demo passes without, fails
# with the patch; stable tests pass), then runs the property's check against it in /repo.
set -e
d=/verif/seeded/$1
t=$(mktemp -d /tmp/vp-seed.XXXXXX)
trap 'rm -rf -- "$t"' EXIT
cp -a /repo/. "$t"/
cd "$t"
chmod +x $d/demo.sh
if [ "$2" != only ]; then
bash $d/demo.sh > $t.clean.log 2>&1 && echo "demo clean: ok" || { echo "demo FAILS on the clean tree"; tail -20 $t.clean.log; exit 1; }
grep -q "test result: ok. [1-9]" $t.clean.log || { echo "no test ran"; exit 1; }
git apply $d/patch.diff
bash $d/demo.sh > $t.bug.log 2>&1 && { echo "demo PASSES with the patch"; exit 1; } || echo "demo with patch: fails ($(grep -c '^error' $t.bug.log) compile errors)"
grep -E "panicked|assertion" -A2 $t.bug.log | head -4
cargo test --offline --lib -- --test-threads 8 2>&1 | grep "test result" | head -1
rm -f $t.clean.log $t.bug.log
fi
[ "$2" = nocheck ] && exit 0
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply $d/patch.diff
( cd /verif; time python3 check.py $p quick 2>&1 | tail -6 ) || true
git -C /repo checkout -- .
