#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (not used by any check)."""
import json, glob, os, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + '/DESIGN.md').read()
a, b = '<!-- bugs -->\n', '<!-- /bugs -->\n'
d = collections.defaultdict(list)
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); d[m['property']].append((os.path.basename(os.path.dirname(f)), m['needs']))
o = ['%d changes.\n\n' % sum(map(len, d.values())), '| check | catches | for example, needing |\n|---|---|---|\n']
for p in sorted(d):
    o.append('| %s | %s | %s |\n' % (p, ', '.join(i for i, n in d[p]), '; '.join(n for i, n in d[p][:2]).replace('|', '\\|')))
i, j = t.index(a) + len(a), t.index(b)
open(V + '/DESIGN.md', 'w').write(t[:i] + ''.join(o) + t[j:])
