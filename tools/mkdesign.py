#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'DESIGN.md'); s = open(p).read()
rows = ['| bug | property | what it needs | caught by |', '|---|---|---|---|']
caught = json.load(open(os.path.join(V, 'seeded', 'caught.json'))) if os.path.exists(os.path.join(V, 'seeded', 'caught.json')) else {}
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f)); b = os.path.basename(os.path.dirname(f))
    rows.append('| %s | %s | %s | %s |' % (b, m['property'], re.sub(r'\s+', ' ', m['needs']).replace('|', '\\|')[:200], caught.get(b, m['property'])))
i = s.index('<!-- bugs -->')
open(p, 'w').write(s[:i] + '<!-- bugs -->\n' + '\n'.join(rows) + '\n')
