#!/bin/bash
# all.sh [ids...]: run all checks, print summary
ids=${*:-$(python3 -c "
import json;print(*[c['property'] if 'property' in c else c['id'] for c in json.load(open('/verif/MANIFEST.json'))['checks']])")}
for i in $ids; do s=$(date +%s); bash /verif/run.sh $i >/tmp/all.$i.log 2>&1; rc=$?; e=$(( $(date +%s)-s )); echo "$i rc=$rc ${e}s $([ $rc != 0 ] && grep -m2 VIOLATION /tmp/all.$i.log)"; done
