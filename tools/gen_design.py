#!/usr/bin/env python3
"""DESIGN.md from tools/DESIGN.in, with the table of seeded bugs."""
import glob, json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = ['| bug | check | manifests with | breaks |', '|---|---|---|---|']
esc = lambda t: t.replace('|', '\\|').replace('\n', ' ')
for d in sorted(glob.glob('seeded/*/')):
    m = json.load(open(d + 'meta.json'))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(d[:-1]), m['property'],
                                          esc(m['needs']), esc(m['what_it_breaks'])))
n = sum(l.startswith('fixed:') for l in open('known_findings.txt'))
s = open('tools/DESIGN.in').read().replace('@FIXED@', str(n)).replace('@TABLE@', '\n'.join(rows))
open('DESIGN.md', 'w').write(s)
