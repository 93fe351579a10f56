#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/registry.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'checks')); sys.dont_write_bytecode = True
from registry import CHECKS, NOT_APPLICABLE, NOTES
props = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks = []
for p in props:
    if p in CHECKS:
        s = CHECKS[p]
        checks.append(dict(property=p, quick_cmd='python3 run.py %s' % p, thorough_cmd='VERIF_TIER=thorough python3 run.py %s --tier thorough' % p,
                           evidence_file='evidence/%s.json' % p, technique=s.get('technique', 'deterministic simulation, seeded schedule and fault search, history checking'),
                           level=s.get('level', 'exploration'), level_note=s['note']))
na = [dict(property=p, reason=NOT_APPLICABLE[p]) for p in props if p not in CHECKS]
m = dict(version=1, setup_cmd='python3 tools/setup.py',
         hooks=dict(guard='MML_VERIF_SIM', enable='No hook was needed: every seam (threads, clocks, entropy, heap, files, processes) is taken at link time by sim/*.cpp; '
                    'checks compile /repo headers unmodified with -fsanitize=thread and link the simulator instead of the sanitizer runtime. The guard is defined nowhere in /repo.', source_commits=[]),
         checks=checks, not_applicable=na, notes=NOTES)
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
