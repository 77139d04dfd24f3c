"""Writes properties.jsonl and MANIFEST.json from tools/props.py and sa/catalog.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'tools')]
from props import PROPS
from sa.catalog import CATALOG
import na
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
assert len({p['id'] for p in PROPS}) == len(PROPS)
checks = []
for p in PROPS:
    c = CATALOG.get(p['id'])
    assert len(p['title']) <= 80, p['id']
    if not c:
        assert p['id'] in na.NA, 'no check and no reason: ' + p['id']
        continue
    checks.append(dict(
        property=p['id'], quick_cmd='python3 -m sa.run %s --tier quick' % p['id'],
        thorough_cmd='python3 -m sa.run %s --tier thorough' % p['id'],
        technique=c.get('technique') or 'abstract interpretation of the source in a symbolic tensor-term domain',
        level='other',
        level_note=(c['rule'] + ' ' + na.NOTE).strip()))
m = dict(version=1, setup_cmd='true', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in na.NA.items() if k not in CATALOG],
         notes='Static analysis only; see DESIGN.md. No hooks in /repo.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(m['not_applicable']), 'not applicable')
