#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.

Run from anywhere: python3 /verif/tools/gen.py
"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
                  technique=technique, note=note, na=na))

exec(open(os.path.join(V, 'tools', 'props.py')).read())

ids = [p['id'] for p in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
m = dict(version=1,
         setup_cmd="./setup.sh",
         checks=[dict(property=p['id'],
                      quick_cmd="./check.sh %s quick" % p['id'],
                      thorough_cmd="./check.sh %s thorough" % p['id'],
                      technique="static analysis: " + p['technique'],
                      level="other", level_note=p['note'])
                 for p in P if not p['na']],
         not_applicable=[dict(property=p['id'], reason=p['na']) for p in P if p['na']],
         notes="One Go analyzer (analyzer/) decides every property from /repo's type-checked source and SSA form; "
               "nothing of /repo is executed. check.sh builds it in a scratch directory on every run. "
               "No hooks are needed in /repo. Genuine defects: known_findings.txt.")
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
try:
    import jsonschema
    s = json.load(open('/root/.vp/MANIFEST.schema.json')); jsonschema.validate(m, s)
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(V, 'properties.jsonl')): jsonschema.validate(json.loads(l), s)
    print('schemas ok')
except ImportError:
    print('jsonschema not available')
print(len(P), 'properties,', len(m['checks']), 'checks')
