#!/bin/bash
# dev helper: baseline tests in the scratch clone /tmp/wk
sed "s#/repo#/tmp/wk#g" /opt/vp/test.sh > /tmp/wktest.sh
sed -i 's#^\. /opt/vp/lib/env.sh#export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg TZ=UTC OMP_NUM_THREADS=1 MPLCONFIGDIR=/tmp/seedmpl#' /tmp/wktest.sh
bash /tmp/wktest.sh /tmp/wkres.json >/tmp/wktest.log 2>&1
python3 - <<'PY'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=set(json.load(open('/tmp/wkres.json'))['passed'])
print('wk: stable', len(b), 'missing', sorted(b-t)[:10])
PY
