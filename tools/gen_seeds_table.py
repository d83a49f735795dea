#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seed_times.txt (id seconds; - = missed)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
times = dict(l.split()[:2] for l in open(os.path.join(here, 'tools/seed_times.txt')) if l.strip())
rows = ['| change | what it breaks | caught by | s |', '|---|---|---|---|']
for i in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', i, 'meta.json')))
    t = times.get(i, '?')
    rows.append('| %s | %s | %s | %s |' % (i, m['what_it_breaks'].replace('|', '/').strip(), '(missed)' if t == '-' else m['property'], t))
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- seeds -->\n', '<!-- /seeds -->'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
