#!/usr/bin/env python3
"""design/caught.json from the logs of bin/catch.sh (/tmp/catch_*.log)"""
import glob, json, os, re
p = '/verif/design/caught.json'
try:
    c = json.load(open(p))
except OSError:
    c = {}
for f in sorted(glob.glob('/tmp/catch_*.log')):
    n = os.path.basename(f)[6:-4]
    t = open(f, errors='replace').read()
    if 'VIOLATION' not in t:
        c[n] = '**missed**'
        continue
    obl = []
    for m in re.finditer(r'FAILED OBLIGATION (kani|verus) (\S+)', t):
        if m.group(2) not in [x[1] for x in obl]:
            obl.append(m.groups())
    w = '; '.join('%s `%s`' % x for x in obl[:3]) + (' and %d more' % (len(obl) - 3) if len(obl) > 3 else '')
    c[n] = (w or 'no obligation decided') + ('; failing input' if 'FAILING INPUT' in t else '; no failing input')
json.dump(c, open(p, 'w'), indent=1, sort_keys=True)
