#!/usr/bin/env python3
"""ev.py ID...: one line per unit of the last evidence (development aid)."""
import json, sys
for i in sys.argv[1:]:
    d = json.load(open('/verif/evidence/%s.json' % i))
    us = d['coverage']['units']
    print(i, d['tier'], 'wall', round(d['wall_s'], 1))
    for u in sorted(us, key=lambda u: -u['wall_s'])[:12]:
        print('  %-28s ex %-9s st %-9s complete %s pb %s wall %.1f' % (u['unit'], u['executions'], u['states'], u['complete'], u.get('bound_completed'), u['wall_s']))
