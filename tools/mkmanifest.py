#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from reg.py and properties.jsonl"""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'); sys.path.insert(0, H)
import reg
props = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks = []
for p in props:
    P = reg.PROPS[p]
    if P.get('na'): continue
    checks.append(dict(property=p, quick_cmd=f'python3-vt check.py {p}', thorough_cmd=f'VERIF_TIER=thorough python3-vt check.py {p}', evidence_file=f'evidence/{p}.json', technique=P['technique'], level=P['level'], level_note=P['note'] or P['technique']))
m = dict(version=1, setup_cmd='bash setup.sh', hooks=dict(guard='none (no hooks: the checks read the unmodified sources)', enable='nothing to enable', source_commits=[]), checks=checks,
         not_applicable=[dict(property=p, reason=reg.PROPS[p]['na']) for p in props if reg.PROPS[p].get('na')])
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
