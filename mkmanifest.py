#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
from checks_meta import META
checks, na = [], []
for p in props:
    m = META.get(p['id'])
    if m is None:
        na.append({'property': p['id'], 'reason': 'check not built yet'})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': 'VERIF_TIER=quick ./check.sh ' + p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + p['id'],
        'technique': m['technique'],
        'level': m['level'],
        'level_note': m['note'],
    })
json.dump({
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': checks,
    'not_applicable': na,
    'notes': 'No hooks in /repo: everything the monitors observe is public. Commits in /repo are fixes only; see KNOWN_FINDINGS and DESIGN.md.',
}, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
