#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from tools/props.py (single source of the property texts).
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE, NOTES
checks = []; na = []
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p.get('over', ['inputs']), text=p['q']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], observe_at=p.get('observe', []), hook_needed=None))
        if p.get('state'): d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
        if p['id'] in NOT_APPLICABLE: na.append(dict(property=p['id'], reason=NOT_APPLICABLE[p['id']])); continue
        checks.append(dict(property=p['id'], quick_cmd='python3-vt irvc/check.py %s quick' % p['id'], thorough_cmd='python3-vt irvc/check.py %s thorough' % p['id'],
                           technique=p.get('tech', 'contract-based deductive verification of the real code (weakest-precondition style symbolic execution of its LLVM IR, obligations discharged by z3/cvc5)'),
                           level=p.get('level', 'proof'), level_note=p['note'], evidence_file='evidence/%s.json' % p['id']))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na, notes=NOTES), open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
sch = json.load(open('/root/.vp/MANIFEST.schema.json')); jsonschema.validate(json.load(open(os.path.join(root, 'MANIFEST.json'))), sch)
sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(os.path.join(root, 'properties.jsonl')): jsonschema.validate(json.loads(l), sch)
print(len(checks), 'checks', len(na), 'not applicable')
