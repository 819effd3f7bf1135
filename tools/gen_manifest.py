#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and info.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from info import INFO, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in INFO:
        inf = INFO[i]
        checks.append({
            'property': i,
            'quick_cmd': f'python3 tools/check.py {i}',
            'thorough_cmd': f'python3 tools/check.py {i} --tier thorough',
            'technique': 'deterministic simulation with fault injection: ' + inf['tech'],
            'level': 'exploration',
            'level_note': inf['note'],
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {
    'version': 1,
    'setup_cmd': 'python3 tools/build.py',
    'hooks': {'guard': 'MJS_SIM', 'enable': 'tools/build.py compiles src/ with -DMJS_SIM', 'source_commits': ['34a82d1']},
    'checks': checks,
    'not_applicable': na,
}
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
