"""Source of properties.jsonl (development helper: python3 tools/properties.py && python3 tools/manifest.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files.split(), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe),
                               hook_needed=None)))


exec(open(os.path.join(V, 'tools', 'properties_src.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for q in P:
        f.write(json.dumps(q) + '\n')
print(len(P), 'properties')
