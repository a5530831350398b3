#!/usr/bin/env python3
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from campaigns import CAMPAIGNS, level_note, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 check.py --build', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in CAMPAIGNS:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                            'technique': 'deterministic simulation with fault injection: seeded random search over programs, schedules and faults, checked against a reference model',
                            'level': 'exploration', 'level_note': level_note(i)})
    else:
        m['not_applicable'].append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'check not built yet')})
m['notes'] = 'See DESIGN.md. No hooks in /repo: every seam is a link-time wrap, a template parameter of the library or a runtime symbol the library already calls.'
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', [x['property'] for x in m['not_applicable']])
