#!/bin/bash
# dev: t.sh PROP CASES [SEED] [extra]; LAB=1 shows labels
export BRSKI_BIN=${BRSKI_BIN:-/verif/build/asan/src/brski/brski}
export ASAN_OPTIONS=detect_leaks=0:handle_abort=1:malloc_context_size=5:quarantine_size_mb=32
P=$1; N=$2; S=${3:-1}; set -- "${@:4}"
${PBT:-/verif/build/asan/h/pbt} --prop $P --seed $S --shards 8 --cases $N --max-seconds ${MAXS:-120} --shrink-seconds 10 --out /tmp/o.json --replay-out /tmp/r.json "$@" >/tmp/t.out 2>&1
python3 - <<'P'
import json,os
d=json.load(open('/tmp/o.json'))
print(d['verdict'],d['cases'],'nontriv',d['distinct_nontrivial'],'wall',d['wall_s'],d['checks'])
if os.environ.get('LAB'): print({k:v for k,v in list(d['labels'].items())[:120]})
if d['verdict']!='held':
    t=open('/tmp/r.json').read()
    print('\n'.join(l[:700] for l in t.split('\n') if not l.startswith('tape'))[:3500])
P
