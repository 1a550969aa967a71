#!/bin/bash
# rtall.sh [SEED]: every runtime layer once, summary only
cd "$(dirname "$0")"
for f in rt/c[0-9]*.py; do i=$(basename $f .py); ./rt.sh ${i^^} ${1:-1} ${2:-quick} 300 /tmp/rt.$i.json; python3 - /tmp/rt.$i.json <<'P'
import json,sys
d=json.load(open(sys.argv[1]))
print(d.get('property'),d.get('evaluations'),d.get('distinct'),'skip',d.get('skipped'),d.get('skip_reasons'),d.get('wall_s'),'VIOL '+str(d['violation'])[:700] if d.get('violation') else '',d.get('crash',''),d.get('error',''))
P
done
