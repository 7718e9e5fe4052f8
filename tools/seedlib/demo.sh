#!/bin/bash
# exit 0: behaviour as stated; nonzero: broken. Run with cwd /repo.
set -u
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%s/zz_helper_test.go":"%s/helper_test.go","%s/zz_demo_test.go":"%s/demo_test.go"}}' "$R" "$D" "$R" "$D" > "$T/o.json"
timeout 250 go test -vet=off -count=1 -timeout 200s -overlay "$T/o.json" -run '^TestDemo$' . 2>&1 | tail -30
exit ${PIPESTATUS[0]}
