"""Writes MANIFEST.json from the list of claimed properties."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf.groups import GROUPS, NOTES  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in GROUPS:
        t, n = NOTES[GROUPS[i].__module__]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i,
                       'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'technique': t, 'level': 'model_checking', 'level_note': n})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ with TLC throughout; see DESIGN.md. No hooks in /repo: the code is observed at its serial port, '
              'socket, file and API boundaries.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
