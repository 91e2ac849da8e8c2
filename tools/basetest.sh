#!/bin/bash
# dev helper: are all baseline tests still passing?
bash /opt/vp/test.sh /tmp/basetest.json >/tmp/basetest.log 2>&1
python3 - <<'PY'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=set(json.load(open('/tmp/basetest.json'))['passed'])
print('stable', len(b), 'missing', sorted(b-t)[:10])
PY
