#!/usr/bin/env python3
"""note.py ID TEXT : set the level note of a property and rewrite properties.jsonl and MANIFEST.json"""
import json, os, subprocess, sys
d = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(d, 'level_notes.json')
n = json.load(open(p))
if len(sys.argv) > 2:
    n[sys.argv[1]] = sys.argv[2]
with open(p, 'w') as f:
    f.write('{\n' + ',\n'.join('%s: %s' % (json.dumps(k), json.dumps(n[k])) for k in sorted(n)) + '\n}\n')
subprocess.check_call([sys.executable, os.path.join(d, 'properties.py')])
subprocess.check_call([sys.executable, os.path.join(d, 'manifest.py')])
