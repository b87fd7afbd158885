#!/bin/bash
# seed.sh ID [fast]: confirm planted bug ID in scratch copies (demo passes without, fails with; tests pass with; checks that catch it)
ID=$1; S=/verif/seeded/$ID
W=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$W"' EXIT
. /opt/vp/env.sh
cp -a /repo "$W/r"; mkdir "$W/d"; cp "$S"/* "$W/d/"; rm -f "$W"/d/*.diff "$W"/d/meta.json
cd "$W/r" || exit 2
bash "$W/d/demo.sh" >"$W/o1" 2>&1 && echo "demo clean: pass" || { echo "demo clean: FAIL"; tail -5 "$W/o1"; }
git apply "$S/patch.diff" || { echo "patch does not apply"; exit 1; }
go build ./... && go build -tags tuneparam ./... || { echo "build FAILS"; exit 1; }
bash "$W/d/demo.sh" >"$W/o2" 2>&1 && echo "demo bug: PASSES (bad)" || { echo "demo bug: fails (good)"; grep -v "^ok\|^FAIL" "$W/o2" | tail -3 | cut -c1-200; }
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
for c in $P $3; do (cd /verif; VERIF_DIR="$W" bash -c "cd /verif && . tools/env.sh && VERIF_DIR=$W ./bin/sortyai -dir $W/r -check $c" | tail -4 | cut -c1-200); done
if [ "$2" != fast ]; then
  go test -c -vet=off -o "$W/t" . || exit 1
  for t in TestByteSlice TestByteSliceByLen TestConcurrent TestFloatNaNlarge TestFloatNaNsmall TestMinMax TestShort TestString TestStringByLen TestUint; do
    (timeout 600 "$W/t" -test.run "^$t\$" >"$W/l.$t" 2>&1 || echo "existing test FAILS: $t") &
  done; wait; echo tests done
fi
