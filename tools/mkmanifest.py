#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (development aid)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C, M, S = 'packages/stylist-core/src/', 'packages/stylist-macros/src/', 'packages/stylist/src/'
def P(id, title, statement, over, q, why, files, mech, level='proof', technique=None, note=None, na=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
                _level=level, _technique=technique, _note=note, _na=na)
TECH = 'contracts on the real functions (extracted each run) discharged by Verus; bounded harness only replays/falls back'
NOTE = 'Deductive proof for all inputs of the functions under contract; assumes the std contracts listed in the evidence and the extraction rules of DESIGN.md.'
PS = []
exec(open(os.path.join(V, 'tools', 'properties_table.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PS:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}, ensure_ascii=False) + '\n')
checks, na = [], []
for p in PS:
    if p['_na']: na.append(dict(property=p['id'], reason=p['_na'])); continue
    c = f"python3 check.py {p['id']}"
    checks.append(dict(property=p['id'], quick_cmd=c, thorough_cmd=f"VERIF_TIER=thorough {c}", technique=p['_technique'] or TECH, level=p['_level'], level_note=p['_note'] or NOTE))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
for p in PS: jsonschema.validate({k: v for k, v in p.items() if not k.startswith('_')}, json.load(open('/root/.vp/PROPERTIES.schema.json')))
print(len(checks), 'claimed', len(na), 'not applicable')
