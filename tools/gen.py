#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props, checks
na = {p['property'] for p in props.NA}
with open(os.path.join(V, 'properties.jsonl'), 'w') as o:
    for p in props.PROPS:
        assert len(p['title']) <= 80, p['id']
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p.get('observe'):
            a['observe_at'] = p['observe']
        o.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
m = {'version': 1, 'setup_cmd': './check --setup', 'checks': [], 'not_applicable': props.NA,
     'notes': 'Symbolic execution of the compiled sources; see DESIGN.md. No hooks in /repo.'}
for p in props.PROPS:
    if p['id'] in na:
        continue
    assert p['id'] in checks.CHECKS, p['id']
    m['checks'].append({'property': p['id'], 'quick_cmd': './check %s --tier quick' % p['id'], 'thorough_cmd': './check %s --tier thorough' % p['id'],
                        'technique': p['technique'], 'level': 'model_checking', 'level_note': props.NOTE + p['note']})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
extra = set(checks.CHECKS) - {p['id'] for p in props.PROPS}
if extra:
    print('checks without a property:', sorted(extra))
