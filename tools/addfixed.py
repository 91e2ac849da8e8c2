"""addfixed.py COMMIT PROPERTY what...  -- record a repaired defect"""
import json, sys
k = json.load(open('/verif/known_findings.json'))
c, p, w = sys.argv[1], sys.argv[2], ' '.join(sys.argv[3:])
if not any(e['id'] == 'fixed-' + c for e in k['findings']):
    k['findings'].append(dict(id='fixed-' + c, property=p, status='fixed', commit=c, what='fixed: property=%s %s %s' % (p, c, w)))
    json.dump(k, open('/verif/known_findings.json', 'w'), indent=1)
