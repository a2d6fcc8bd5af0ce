#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST_MISSED = {'walsh-small', 'pn-radius', 'restart-first', 'rls-patience', 'ga-crossover-once'}
rows = []
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d))); rows.append((m['property'], d, m['needs'], m['what_it_breaks']))
t = '| property, caught by its check | change | needs |\n|---|---|---|\n' + '\n'.join('| %s | %s%s: %s | %s |' % (p, d, '\\*' if d in FIRST_MISSED else '', b, n) for p, d, n, b in sorted(rows))
s = open(V + '/DESIGN.md').read()
s = re.sub(r'<!-- table -->.*?<!-- end -->', lambda _: '<!-- table -->\n' + t + '\n<!-- end -->', s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
