#!/usr/bin/env python3-vt
"""writes properties.jsonl and MANIFEST.json"""
import json, os, sys
sys.path.insert(0, '/verif')
from props import PROPS
META = []


def P(id, title, statement, over, text, why, files, mech, na=None, note=None, state=None):
    META.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                     anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), _na=na, _note=note))
    assert len(title) <= 80, title


exec(open('/verif/tools/meta_text.py').read())

with open('/verif/properties.jsonl', 'w') as f:
    for m in META:
        f.write(json.dumps({k: v for k, v in m.items() if not k.startswith('_')}) + '\n')
checks, na = [], []
for m in META:
    i = m['id']
    if i in PROPS:
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s --tier quick' % i, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': PROPS[i].get('technique', 'contracts on the real functions, obligations from /repo discharged by z3 (own VC generator over the clang AST)' if PROPS[i]['proofs'] else 'bounded stand-in for functions beyond the verifier: executable contract against the real code'),
                       'level': PROPS[i].get('level', 'proof' if PROPS[i]['proofs'] else 'exploration'), 'level_note': m['_note'] or PROPS[i].get('note', '')})
    else:
        na.append({'property': i, 'reason': m['_na'] or 'not built'})
man = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
       'notes': 'Every check extracts the functions it names from /repo on every run; see DESIGN.md.'}
json.dump(man, open('/verif/MANIFEST.json', 'w'), indent=1)
missing = [k for k in PROPS if k not in {m['id'] for m in META}]
print(len(META), 'properties', len(checks), 'checks', 'no text for', missing)
