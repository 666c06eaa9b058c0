#!/usr/bin/env python3
"""seedrow.py ID...: adds rows for planted bugs to DESIGN.md's table (development aid)."""
import json, sys
s = open('DESIGN.md').read().split('\n')
k = max(j for j, l in enumerate(s) if l.startswith('| dto-trailing-text'))
while s[k + 1].startswith('|'):
    k += 1
for i in sys.argv[1:]:
    m = json.load(open('seeded/%s/meta.json' % i))
    if not any(l.startswith('| %s |' % i) for l in s):
        k += 1
        s.insert(k, '| %s | %s | %s |' % (i, m['property'], m['needs']))
open('DESIGN.md', 'w').write('\n'.join(s))
