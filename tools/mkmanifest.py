#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a file in checks/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTES = json.load(open(os.path.join(V, 'tools', 'notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i + '.py')):
        n = NOTES.get(i, {})
        checks.append({'property': i, 'quick_cmd': 'bin/check %s quick' % i, 'thorough_cmd': 'bin/check %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': n.get('technique', 'TLA+ specification checked with TLC; scenarios drawn from it and traces of the real target validated against it'),
                       'level': 'model_checking', 'level_note': n.get('note', 'exhaustive on the small specification model; conformance of the code on the generated and recorded traces')})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
