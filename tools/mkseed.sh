#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what it breaks"  < demo body in $DEMO (file), edits made by $EDIT (python file run in the copy)
# Makes /verif/seeded/ID after confirming everything in a scratch copy.
set -u
ID=$1 P=$2 NEEDS=$3 BREAKS=$4
S=/tmp/seedcopy; rm -rf /tmp/seedcopy; cp -a /repo /tmp/seedcopy; cd /tmp/seedcopy
. /opt/vp/env.sh
python3 "$EDIT" || { echo "EDIT FAILED"; exit 1; }
git diff > /tmp/seed.diff
[ -s /tmp/seed.diff ] || { echo "no diff"; exit 1; }
# changed lines must be the original's
for f in $(git diff --name-only); do
  git diff -U0 "$f" | grep -oP '^@@ -\K[0-9]+(,[0-9]+)?' | while IFS=, read -r a n; do
    n=${n:-1}; [ "$n" = 0 ] && n=1
    git blame -s -L "$a,+$n" HEAD -- "$f" | grep -v '^\^' && echo "NOTE: line above is not the base's ($f)"
  done
done
go build ./... || { echo "BUILD FAILED"; exit 1; }
D=/verif/seeded/$ID; mkdir -p "$D"
L=/verif/tools/seedlib${SUB:-}; cp $L/demo.sh "$D/"; [ -n "${NOHELPER:-}" ] || cp $L/helper_test.go "$D/"
[ -n "${DEMOSH:-}" ] && cp "$DEMOSH" "$D/demo.sh"; chmod +x "$D/demo.sh"
cp "$DEMO" "$D/demo_test.go"; gofmt -w "$D/demo_test.go"
cp /tmp/seed.diff "$D/patch.diff"
python3 - "$D" "$P" "$NEEDS" "$BREAKS" <<'PY'
import json,sys
d,p,n,b=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(d+"/meta.json","w"),indent=1,ensure_ascii=False)
PY
(cd /repo && bash "$D/demo.sh" >/tmp/demo_base.log 2>&1); B=$?
bash "$D/demo.sh" >/tmp/demo_mut.log 2>&1; M=$?
echo "demo base=$B mut=$M"; [ $B = 0 ] || tail -15 /tmp/demo_base.log; grep -m3 -E 'FAIL|panic|demo_test' /tmp/demo_mut.log
if [ -z "${SKIPT:-}" ]; then timeout 150 go test ./blind ./actor 2>&1 | grep -E "^(ok|FAIL|---)" | head -5; fi
[ $B = 0 ] && [ $M != 0 ] && echo "SEED OK $ID" || { echo "SEED BAD $ID"; rm -rf "$D"; }
