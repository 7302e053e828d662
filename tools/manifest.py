#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks present in harness/."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'explicit TLA+ specification checked with TLC; generated behaviours replayed into the code and recorded traces validated against the specification'
NOTES = json.load(open(os.path.join(V, 'tools', 'level_notes.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if glob.glob(os.path.join(V, 'harness', p.lower() + '_*.py')) and p in NOTES:
        checks.append({'property': p, 'quick_cmd': './check ' + p, 'thorough_cmd': './check ' + p + ' thorough',
                       'evidence_file': 'evidence/%s.json' % p, 'technique': TECH, 'level': 'model_checking',
                       'level_note': NOTES[p]})
    else:
        na.append({'property': p, 'reason': 'specification and conformance check not built yet'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ with TLC. No hooks in /repo: the public API and the files written by the programs expose the state the specifications speak about. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not claimed')
