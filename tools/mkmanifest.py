#!/usr/bin/env python3
"""writes MANIFEST.json from plan.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from plan import PLAN, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(HERE, '..', 'properties.jsonl')) if l.strip()]
checks = []
for p in props:
    i = p['id']
    if i in NOT_APPLICABLE:
        continue
    pl = PLAN[i]
    checks.append({
        'property': i, 'quick_cmd': 'VERIF_TIER=quick python3 tools/check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py ' + i,
        'technique': pl.get('technique') or ('contracts on the real functions, discharged by Verus; concrete search for a failing input as replay' if pl['units'] else 'bounded stand-in: reference-model comparison on generated inputs'),
        'level': pl['level'], 'level_note': pl.get('note') or ('every obligation of the owned contracts is discharged for all inputs; assumed: ' + '; '.join(pl['assume'] or ['nothing beyond Verus and the extraction']) + ('. Not proved: ' + '; '.join(pl['not_proved']) if pl.get('not_proved') else '') if pl['level'] == 'proof' else 'bounded: no failing input among the generated ones'), **({'theorems': pl['theorems']} if pl.get('theorems') else {})})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
     'hooks': {'guard': 'cfg(smdiff_verif)', 'enable': 'RUSTFLAGS="--cfg smdiff_verif" (set by tools/check.py when it builds the harness)', 'source_commits': ['d42c847']},
     'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in NOT_APPLICABLE.items()],
     'notes': 'See DESIGN.md.'}
json.dump(m, open(os.path.join(HERE, '..', 'MANIFEST.json'), 'w'), indent=1)
