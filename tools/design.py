"""Regenerates DESIGN.md from tools/design_head.md, properties.jsonl, the check modules, known findings and seeded bugs."""
import ast, glob, json, os
os.chdir('/verif')
props = [json.loads(l) for l in open('properties.jsonl')]
known = json.load(open('known_findings.json'))['findings']
seeded = [(os.path.basename(os.path.dirname(f)), json.load(open(f))) for f in sorted(glob.glob('seeded/*/meta.json'))]
caught = json.load(open('tools/caught.json')) if os.path.exists('tools/caught.json') else {}
out = [open('tools/design_head.md').read()]


def consts(path):
    tree = ast.parse(open(path).read())
    d = {'doc': ast.get_docstring(tree)}
    src = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            src[n.targets[0].id] = n.value

    def ev(v):
        try:
            return ast.literal_eval(v)
        except Exception:
            pass
        if isinstance(v, (ast.List, ast.Tuple)):
            return [ev(e) for e in v.elts]
        if isinstance(v, ast.Dict):
            return {ev(k): ev(e) for k, e in zip(v.keys, v.values)}
        if isinstance(v, ast.Name) and v.id in src:
            return ev(src[v.id])
        if isinstance(v, ast.BinOp):
            l, r = ev(v.left), ev(v.right)
            return l + r if type(l) is type(r) else str(l) + str(r)
        name = ast.unparse(v)
        last = name.split('.')[-1]
        for f in glob.glob('symx/*.py'):
            for n in ast.parse(open(f).read()).body:
                if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', None) == last:
                    try:
                        return ast.literal_eval(n.value)
                    except Exception:
                        pass
        return name
    for k in ('STUBS', 'BOUNDS', 'OUTSIDE', 'ASSUMPTIONS', 'HARNESSES'):
        if k in src:
            d[k] = ev(src[k])
    return d


out.append('## Properties\n')
for p in props:
    i = p['id']
    f = glob.glob('checks/%s_*.py' % i.lower())[0]
    c = consts(f)
    out.append('### %s %s\n' % (i, p['title']))
    out.append('*Statement.* ' + p['statement'] + '\n')
    out.append('*Why tests cannot.* ' + p['why_tests_cant'] + '\n')
    a = p['anchors']
    out.append('*Encoded* (`%s`): %s; entered at %s.\n' % (
        f, '; '.join('%s (`%s`)' % (m['name'], m['where']) for m in a['mechanism']), ', '.join('`%s`' % o for o in a['observe_at'])))
    b = c.get('BOUNDS', {})
    out.append('*Bounds, quick.* %s\n*Thorough.* %s\n' % (b.get('quick'), b.get('thorough')))
    if c.get('STUBS'):
        out.append('*Stubs.* ' + '; '.join(map(str, c['STUBS'])) + '\n')
    if c.get('ASSUMPTIONS'):
        out.append('*Assumptions.* ' + '; '.join(map(str, c['ASSUMPTIONS'])) + '\n')
    if c.get('OUTSIDE'):
        o = c['OUTSIDE']
        out.append('*Outside.* ' + (o if isinstance(o, str) else '; '.join(map(str, o))) + '\n')
    ev = 'tools/timings.json'
    fx = [k for k in known if k['property'] == i]
    for k in fx:
        out.append('- %s %s' % ('repaired' if k.get('status') == 'fixed' else 'KNOWN FINDING', k['what'].replace('fixed: property=%s ' % i, '')))
    if fx:
        out.append('')
    for name, m in seeded:
        if m['property'] == i:
            out.append('- planted `%s`: %s Needs: %s. **%s**' % (
                name, m['what_it_breaks'], m['needs'].rstrip('.'), caught.get(name, 'caught by this check')))
    out.append('')
out.append('## Planted bugs\n\n| bug | property | outcome |\n|---|---|---|')
for name, m in seeded:
    out.append('| %s | %s | %s |' % (name, m['property'], caught.get(name, 'caught by ' + m['property'])))
out.append('\nCandidates dropped because existing tests already catch them: ' + open('tools/rejected.txt').read().strip() + '\n')
open('DESIGN.md', 'w').write('\n'.join(out) + '\n')
print(len(out), 'lines')
