#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks registered in checks/properties.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/checks')
import properties
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {
 'C27': 'Rejection happens in the compiler: no execution of the library exists to be observed, so run-time monitoring cannot decide it.',
}
TECH = properties.TECHNIQUES
checks, na = [], []
for p in props:
    i = p['id']
    if i in properties.CHECKS:
        t = TECH[i]
        checks.append({'property': i, 'quick_cmd': f'python3 checks/run.py {i} quick', 'thorough_cmd': f'python3 checks/run.py {i} thorough',
                       'technique': t[0], 'level': 'exploration', 'level_note': t[1]})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'The monitor for this property is not finished yet.')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'Every check builds its own harnesses from /repo/include in a scratch directory and removes it. No hooks are needed in /repo: the library is header-only and its policies are public extension points.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
