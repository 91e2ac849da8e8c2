"""Regenerate MANIFEST.json from properties.jsonl and the check modules (development helper)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl')) if l.strip()]
have = {re.match(r'(c\d+)_', f).group(1).upper(): f for f in os.listdir(os.path.join(V, 'checks')) if re.match(r'c\d+_', f)}
na = json.load(open(os.path.join(V, 'tools', 'not_applicable.json')))
checks = []
for p in props:
    i = p['id']
    if i in have and i not in na:
        src = open(os.path.join(V, 'checks', have[i])).read()
        tech = re.search(r"^TECHNIQUE = '([^']*)'", src, re.M)
        note = re.search(r"^LEVEL_NOTE = '([^']*)'", src, re.M)
        checks.append(dict(property=i, quick_cmd='./run.sh %s quick' % i, thorough_cmd='./run.sh %s thorough' % i,
                           technique=tech.group(1) if tech else 'symbolic execution of the real Python/numpy code (z3)',
                           level='model_checking',
                           level_note=note.group(1) if note else
                           'All values of the symbolic inputs within the bounds stated in the evidence file are '
                           'decided by z3 on every feasible path of the real functions; real arithmetic stands in for '
                           'float64, and nothing is claimed beyond the bounds. Counterexamples are replayed on the '
                           'unmodified code in float64 before being reported.'))
    elif i not in na:
        na[i] = 'no check yet'
m = dict(version=1, setup_cmd='./setup.sh', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(na.items()) if any(p['id'] == k for p in props)],
         notes='No hooks are used in /repo; "fix:" commits there repair genuine defects (see known_findings.json).')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(m['not_applicable']), 'not applicable')
