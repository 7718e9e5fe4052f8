#!/bin/bash
# dev helper: t.sh CHECKS SEED PROP...
n=$1; sd=$2; shift 2
for i in "$@"; do rm -f /tmp/f.$i.$sd.json; ( ./run.sh $i $n $sd > /tmp/rs.$i.$sd 2>&1 ) & 
while [ $(jobs -r | wc -l) -ge 8 ]; do sleep 0.2; done; done; wait
for i in "$@"; do echo "== $i"; cat /tmp/rs.$i.$sd | cut -c1-${W:-330}; python3 - $i $sd <<'P'
import json,sys,os
f=f'/tmp/f.{sys.argv[1]}.{sys.argv[2]}.json'
if os.path.exists(f):
    d=json.load(open(f));print('VIOL',d['Msg'][:900]); print(json.dumps(d['Plan'])[:int(os.environ.get('PL','300'))]); print('\n'.join(x[:260] for x in (d['Trace'] or [])[-int(os.environ.get('T','14')):]))
P
done
