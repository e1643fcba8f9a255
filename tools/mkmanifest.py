#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below and the checks present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(V, 'tools', 'checks.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')) and i in T:
        t = T[i]
        checks.append({'property': i, 'quick_cmd': './check ' + i,
                       'thorough_cmd': './check %s --thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': t['technique'], 'level': t.get('level', 'exploration'),
                       'level_note': t['note']})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 vf/build.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the monitors sit at the library-call boundary (linker --wrap), in the harness and in the simulated peers.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
