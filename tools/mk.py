#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and sim/checks.py (run by hand after editing either)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'tools'), os.path.join(V, 'sim')]
from props import PROPS
from checks import CHECKS
open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(p) + '\n' for p in PROPS))
checks, na = [], []
for p in PROPS:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'deterministic simulation with fault injection: ' + c['technique'], 'level': c['level'],
                       'level_note': c['note'] + ' Seeded search, not exhaustive: no violation means none in the explored runs. Trusted: the simulator, the reference model in the harness, gcc and its AddressSanitizer instrumentation.'})
    else:
        na.append({'property': i, 'reason': 'no check registered yet'})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check rebuilds the library from /repo with the project\'s own Makefile rules (generated amalgamations; the committed ones too when their code differs), links it with the simulator and runs seeded simulations. No hooks in /repo: all seams are link-time wraps, the documented cee_segfault override and SQLite\'s VFS and allocator interfaces.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
try:
    import jsonschema
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in PROPS:
        jsonschema.validate(p, s)
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('valid: %d properties, %d checks' % (len(PROPS), len(checks)))
except ImportError:
    print('not validated (no jsonschema)')
