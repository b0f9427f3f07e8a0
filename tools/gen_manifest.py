#!/usr/bin/env python3
"""Write MANIFEST.json from the registered checks."""
import json, os, subprocess, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from edv import props
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = {}
checks, na = [], []
for p in ids:
    c = props.CHECKS.get(p)
    if c is None:
        na.append({'property': p, 'reason': NA.get(p, 'No check built yet.')})
        continue
    checks.append({'property': p, 'quick_cmd': 'python3 check.py %s quick' % p,
                   'thorough_cmd': 'python3 check.py %s thorough' % p,
                   'technique': c.technique, 'level': c.level, 'level_note': c.note})
hook = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^hook:'],
                      capture_output=True, text=True).stdout.split()
json.dump({'version': 1, 'setup_cmd': 'python3 -c "import edv.rx"',
           'hooks': {'guard': 'ED_VERIF',
                     'enable': 'checks compile the sources with -DED_VERIF (edv/build.py)',
                     'source_commits': hook[::-1]},
           'checks': checks, 'not_applicable': na,
           'notes': 'See DESIGN.md.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
