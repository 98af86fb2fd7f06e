#!/bin/bash
# seedtest.sh ID... : applies each planted bug to /repo, runs its property's quick check (and with T=1 the stable tests), undoes it
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id DOES-NOT-APPLY"; continue; }
  if [ -n "$T" ]; then bash /opt/vp/build.sh >/tmp/b_$id.log 2>&1; bash /opt/vp/test.sh /tmp/t_$id.json >/dev/null 2>&1
    python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/t_$id.json'))
m=set(b['stable'])-set(t['passed']);print('$id tests:', 'ok' if not m else m)"; fi
  s=$(date +%s); (cd /verif && python3 run.py $p quick) >/tmp/o_$id.log 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -c '^VIOLATION' /tmp/o_$id.log) $(( $(date +%s)-s ))s $(grep VIOLATION /tmp/o_$id.log|head -1)"
  git -C /repo checkout -- .
done
