#!/bin/bash
# dev helper: run.sh PROP CHECKS SEED
. /opt/vp/env.sh
VERIF_CUR=/tmp/cur.$1.$3.json VERIF_PROP=$1 GOMAXPROCS=1 GODEBUG=asyncpreemptoff=1 VERIF_OUT=/tmp/o.$1.$3.json VERIF_FAIL=/tmp/f.$1.$3.json timeout 300 /tmp/h.test -test.run TestProp -rapid.checks=$2 -rapid.seed=$3 -rapid.nofailfile -rapid.shrinktime=10s > /tmp/log.$1.$3 2>&1
rc=$?
echo "rc=$rc"; grep -m1 -A14 "^panic\|fatal error\|WATCHDOG" /tmp/log.$1.$3 | cut -c1-180
python3 - "$1" "$3" <<'P'
import json,sys,os
o=f'/tmp/o.{sys.argv[1]}.{sys.argv[2]}.json'
if os.path.exists(o):
    d=json.load(open(o)); print({k:d[k] for k in ('Cases','NonTriv','Distinct','Violation','WallS')}); print(d['Classes'])
    for s in d['Samples'][:3]: print('  ',s[:260])
    os.remove(o)
P
