#!/usr/bin/env python3
"""Writes MANIFEST.json from the unit table."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
import units as U
checks = []
for l in open(H + '/properties.jsonl'):
    p = json.loads(l)['id']
    if p not in U.TABLE:
        continue
    checks.append(dict(property=p, quick_cmd='python3 check.py %s --tier quick' % p, thorough_cmd='python3 check.py %s --tier thorough' % p,
                       evidence_file='evidence/%s.json' % p, technique=U.TECH[p], level=U.LEVEL.get(p, 'exploration'),
                       level_note=U.NOTE.get(p, 'Violations are concluded from executions of the real code; held means held on the executions counted in the evidence.')))
na = [dict(property=json.loads(l)['id'], reason='check under construction') for l in open(H + '/properties.jsonl') if json.loads(l)['id'] not in U.TABLE]
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na,
         notes='No hooks in /repo: harnesses observe the public API, replace clock_gettime/malloc/operator new/pthread functions by interposition, and supply their own allocators, element types and streams.')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
open(H + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'unclaimed')
