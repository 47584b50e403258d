#!/usr/bin/env python3
"""writes MANIFEST.json from lib/props.py"""
import sys, os, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'lib')); sys.dont_write_bytecode = True
from props import PROPS
checks = []
for pid, c in sorted(PROPS.items()):
    checks.append(dict(property=pid, quick_cmd='python3 run.py ' + pid, thorough_cmd='VERIF_TIER=thorough python3 run.py ' + pid,
        technique=c.get('technique', 'bounded stand-in for contracts: enumerated and random cases on the real crate'),
        level=c['level'], level_note=c.get('note', 'Bounded: enumerated and seeded random cases against an independent oracle; nothing is proved for this property.'),
        **({'theorems': c['theorems']} if c.get('theorems') else {})))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=[], notes='See DESIGN.md. No hooks: the checks use the public API and functions extracted from /repo/src on every run.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(H, 'MANIFEST.json'), 'a').write('\n')
