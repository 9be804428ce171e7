#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and lib/config.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
sys.dont_write_bytecode = True
import config
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    if i not in config.FAMILIES:
        continue
    mods = [m if isinstance(m, str) else m[0] for m in config.MODELS.get(i, [])]
    tech = 'TLA+ specification, TLC: recorded executions of the real code validated call by call against the specification (trace validation)'
    if mods:
        tech += '; behaviours of the bounded models %s replayed into the real code' % ', '.join(mods)
    checks.append({'property': i, 'quick_cmd': 'bin/check %s quick' % i, 'thorough_cmd': 'bin/check %s thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': tech, 'level': 'model_checking',
                   'level_note': config.LEVEL_NOTE + config.NOTES.get(i, '')})
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': [],
     'notes': 'TLA+ (spec/), harness in Java (harness/), program generation and orchestration in Python (lib/). No hooks in /repo.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
