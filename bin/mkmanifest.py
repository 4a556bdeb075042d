#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from units.py and properties.jsonl"""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from units import UNITS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
hooks = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout
hooks = [l.split()[0] for l in hooks.splitlines() if 'verification hooks' in l]
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='bash bin/setup.sh',
         hooks=dict(guard='cfg verif_hooks / verif_inspect', enable='RUSTFLAGS="--cfg verif_hooks --cfg verif_inspect"', source_commits=hooks),
         checks=[], not_applicable=[])
for i in ids:
    u = UNITS.get(i)
    if not u or u.get('na'):
        m['not_applicable'].append(dict(property=i, reason=(u or {}).get('na', 'contracts for it are still being written')))
        continue
    m['checks'].append(dict(property=i, quick_cmd='python3 bin/check.py %s --tier quick' % i, thorough_cmd='python3 bin/check.py %s --tier thorough' % i,
                            technique=u['technique'], level=u['level'],
                            level_note=(u.get('note') or u.get('explanation') or u['technique']) + (' Trusts: ' + '; '.join(u['trusted']) if u['trusted'] else '')))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
