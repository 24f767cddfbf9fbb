#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {}
TECH = {}
TECH.update(json.load(open(V + '/tools/tech.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{V}/props/{i}.cc') or i in TECH and os.path.exists(f'{V}/props/{i}.rb'):
        checks.append({'property': i, 'quick_cmd': f'./run.sh {i}', 'thorough_cmd': f'VERIF_TIER=thorough ./run.sh {i}',
            'evidence_file': f'evidence/{i}.json', 'technique': TECH[i][0], 'level': 'exploration', 'level_note': TECH[i][1]})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'make -s prebuild', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
