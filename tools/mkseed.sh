#!/bin/bash
# mkseed.sh ID: turns the edits in the scratch copy $WT into /verif/seeded/ID's
# patch.diff and confirms it: builds, passes the stable tests, and demo.sh
# exits 0 without and nonzero with it. Leaves the scratch copy clean.
set -u
ID="$1"; D=/verif/seeded/$ID; WT="${WT:-/tmp/seed/wt}"
. /opt/vp/env.sh
cd "$WT" || exit 1
git diff >"$D/patch.diff"
[ -s "$D/patch.diff" ] || { echo "$ID: EMPTY"; exit 1; }
fail() { echo "$ID: FAIL $1"; git checkout -q -- .; exit 1; }
go build ./... || fail build
L=$(mktemp)
go test -json -vet=off -count=1 -timeout 10m -tags=nolog -ldflags="$LD" ./... >"$L" 2>&1
python3 - "$L" <<'P' || { rm -f "$L"; fail tests; }
import json,sys
ok=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except ValueError: continue
    if e.get("Action")=="pass" and e.get("Test"): ok.add(e["Package"]+"/"+e["Test"])
b=json.load(open("/opt/vp/BASELINE.json"))
names=b["stable"]
miss=[n for n in names if n not in ok]
print("stable", len(names), "missing", miss[:5]); sys.exit(1 if miss else 0)
P
rm -f "$L"
bash "$D/demo.sh" >/tmp/seed/patched.log 2>&1 && fail "demo passes with patch"
grep -q -e '--- FAIL' -e 'panic:' -e 'DEMO' /tmp/seed/patched.log || { tail -20 /tmp/seed/patched.log; fail "demo fails oddly"; }
git checkout -q -- .
bash "$D/demo.sh" >/tmp/seed/clean.log 2>&1 || { tail -30 /tmp/seed/clean.log; fail "demo fails unpatched"; }
git -C /repo apply --check "$D/patch.diff" || fail apply
echo "$ID: OK"
