#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and engine/registry.py."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
sys.path.insert(0, os.path.join(V, 'tools'))
from registry import PROPS
from proptext import TEXT, NOT_APPLICABLE

out = []
for p in TEXT:
    out.append(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                               quantifier=dict(over=p['over'], text=p['q']), why_tests_cant=p['why'],
                               anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))))
    assert len(p['title']) <= 80, p['title']
open(os.path.join(V, 'properties.jsonl'), 'w').write('\n'.join(out) + '\n')
ids = [p['id'] for p in TEXT]
checks = []
for i in ids:
    if i in PROPS:
        m = PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --thorough' % i,
                           technique=m.get('technique', 'abstract interpretation of the LLVM IR of the current sources'),
                           level=m['level'], level_note=m.get('note', m['rule'])))
na = [dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()]
assert set(ids) == {c['property'] for c in checks} | set(NOT_APPLICABLE), set(ids) ^ ({c['property'] for c in checks} | set(NOT_APPLICABLE))
assert set(PROPS) <= set(ids), set(PROPS) - set(ids)
json.dump(dict(version=1, setup_cmd='python3 check.py --selftest', checks=checks, not_applicable=na),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(ids), 'properties', len(checks), 'checks')
