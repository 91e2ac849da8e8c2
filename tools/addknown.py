"""addknown.py ID PROPERTY REPLAY.json what...  -- list a genuine defect that is not repaired"""
import json, sys
k = json.load(open('/verif/known_findings.json'))
i, p, r, w = sys.argv[1], sys.argv[2], json.load(open(sys.argv[3])), ' '.join(sys.argv[4:])
k['findings'] = [e for e in k['findings'] if e['id'] != i]
k['findings'].append(dict(id=i, property=p, status='known', cfg=r['cfg'], values=r['values'], what=w))
json.dump(k, open('/verif/known_findings.json', 'w'), indent=1)
