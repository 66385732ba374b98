#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md (run by hand)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in os.listdir(V + '/seeded'):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    rows.append((m['property'], i, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), m.get('caught_by', m['property'])))
t = '| property | change | breaks | needs | reported by |\n|---|---|---|---|---|\n' + '\n'.join('| %s | %s | %s | %s | %s |' % r for r in sorted(rows))
d = open(V + '/DESIGN.md').read()
d = re.sub(r'(SEEDTABLE|<!-- table -->.*)\s*$', '', d, flags=re.S).rstrip() + '\n\n<!-- table -->\n' + t + '\n'
open(V + '/DESIGN.md', 'w').write(d)
