#!/bin/bash
# seed.sh ID PROP "needs" "breaks": takes the working-tree change of /tmp/sw and main.rs from /tmp/seed-main.rs,
# confirms it, and stores it as seeded/ID.
set -e
ID=$1; PROP=$2
D=/verif/seeded/$ID
cd /tmp/sw
git diff > /tmp/seed.diff
test -s /tmp/seed.diff
rm -rf /tmp/seed-demo; mkdir -p /tmp/seed-demo; [ -f /tmp/seed-expect.txt ] && cp /tmp/seed-expect.txt /tmp/seed-demo/expect-error.txt; cp /verif/tools/demo.sh /tmp/seed-demo/demo.sh; cp /tmp/seed-main.rs /tmp/seed-demo/main.rs
cargo test --workspace --no-fail-fast --offline > /tmp/seed-test.out 2>&1 || { echo "TESTS FAIL"; exit 1; }
if bash /tmp/seed-demo/demo.sh > /tmp/seed-demo.out 2>&1; then echo "DEMO PASSES WITH PATCH (bad)"; exit 1; else echo "demo fails with patch: $(tail -3 /tmp/seed-demo.out | head -c 300)"; fi
(cd /repo && bash /tmp/seed-demo/demo.sh > /tmp/seed-demo.out 2>&1) || { echo "DEMO FAILS ON CLEAN"; tail -5 /tmp/seed-demo.out; exit 1; }
mkdir -p $D; cp /tmp/seed.diff $D/patch.diff; cp /tmp/seed-demo/* $D/
python3 - "$PROP" "$3" "$4" > $D/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
P
git checkout -q -- .
echo stored $ID
