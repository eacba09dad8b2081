#!/usr/bin/env python3
"""writes MANIFEST.json from props.py (claimed properties) and properties.jsonl"""
import json, sys
sys.path.insert(0, '/verif')
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks = []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {i} --thorough',
                       'technique': p.get('technique', 'contract-based deductive verification of the extracted real code (Verus/Z3); bounded executable contracts for what Verus cannot take'),
                       'level': p.get('level', 'proof'), 'level_note': p['note']})
na = [{'property': i, 'reason': NOT_APPLICABLE[i]} for i in ids if i not in PROPS]
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. See DESIGN.md.'}, open('/verif/MANIFEST.json', 'w'), indent=1)
