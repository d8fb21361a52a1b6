#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tool/props.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tool'))
sys.dont_write_bytecode = True
from props import PROPS, NOT_APPLICABLE
out = []
checks = []
na = []
for p in PROPS:
    over = p['over']
    out.append({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': over, 'text': p['quant']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}})
    assert len(p['title']) <= 80, p['title']
    if p.get('na'):
        na.append({'property': p['id'], 'reason': p['na']})
    else:
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'],
                       'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                       'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for o in out:
        f.write(json.dumps(o) + '\n')
m = {'version': 1,
     'setup_cmd': 'python3 tool/setup.py',
     'checks': checks, 'not_applicable': na}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print('%d properties, %d checks, %d not applicable' % (len(out), len(checks), len(na)))
