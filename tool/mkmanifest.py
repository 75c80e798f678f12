#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
plan = json.load(open(os.path.join(V, 'tool', 'plan.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
OBL = ('abstract interpretation of the typed syntax tree (value numbering, loops summarised by recurrences), '
       'compared with a reference definition')
NOTE = ('A claim that is "proved equal" holds for every input of the analysed instantiation, in exact arithmetic and under the '
        'models of the standard library in tool/sa/stdm.py; a claim that only agrees at sample points of its normal form is quiet '
        'but not proved, and the evidence file counts the two apart. An alarm always names inputs for which the normal forms '
        'differ. Rounding, overflow of size_t, memory exhaustion and callbacks with side effects on the library are outside the model.')
checks = []
for p in props:
    c = plan.get(p['id'])
    if c is None:
        continue
    rules = c.get('rules', [])
    drv = os.path.exists(os.path.join(V, 'tool', 'drivers', p['id'] + '.cpp')) or c.get('units')
    tech = c.get('technique') or ('; '.join(([OBL] if drv else []) + (['rule analyses over the exported program: ' + ', '.join(rules)] if rules else [])))
    checks.append({'property': p['id'],
                   'quick_cmd': 'python3 tool/check.py %s' % p['id'],
                   'thorough_cmd': 'python3 tool/check.py %s --tier thorough' % p['id'],
                   'technique': tech, 'level': c.get('level', 'other'),
                   'level_note': c.get('note', NOTE)})
na = [{'property': p['id'], 'reason': plan['not_applicable'][p['id']]} for p in props if p['id'] not in plan]
json.dump({'version': 1, 'setup_cmd': 'bash tool/build.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'Static analysis only; see DESIGN.md.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
