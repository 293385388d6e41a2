#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that have a check."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{here}/properties.jsonl')]
T = json.load(open(f'{here}/tools/techniques.json'))
checks = []
for p in props:
    i = p['id']
    if not os.path.exists(f'{here}/harness/{i.lower()}.go'):
        continue
    tech, level, note = T.get(i, ['runtime monitoring: generated workloads judged online by a reference-model oracle', 'exploration', 'see DESIGN.md'])
    checks.append({'property': i, 'quick_cmd': f'./run.sh {i}', 'thorough_cmd': f'VERIF_TIER=thorough ./run.sh {i}',
                   'technique': tech, 'level': level, 'level_note': note})
have = {c['property'] for c in checks}
na = [{'property': p['id'], 'reason': 'check under construction'} for p in props if p['id'] not in have]
json.dump({'version': 1, 'setup_cmd': './run.sh --setup', 'checks': checks, 'not_applicable': na},
          open(f'{here}/MANIFEST.json', 'w'), indent=1)
open(f'{here}/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks;', len(na), 'missing')
