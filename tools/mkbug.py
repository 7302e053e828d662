#!/usr/bin/env python3
"""mkbug.py BUG.py : write /verif/seeded/<id>/ from a description that defines
id, property, edits=[(file, old, new)], demo (python source), needs, breaks.
Development tool; no check uses it."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sys.argv[1:]:
    g = {}
    exec(open(f).read(), g)
    bugs = g.get('bugs') or [g]
    for b in bugs:
        d = os.path.join(V, 'seeded', b['id'])
        os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp()
        try:
            subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w + '/r', 'HEAD'])
            for path, old, new in b['edits']:
                p = os.path.join(w, 'r', path)
                s = open(p).read()
                assert s.count(old) == 1, (b['id'], path, s.count(old), old)
                open(p, 'w').write(s.replace(old, new))
            diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'], text=True)
        finally:
            subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w + '/r'])
            shutil.rmtree(w)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0 when the property holds for the demonstrated case
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD/py PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export REPO=$PWD WORK=$W
exec_dir=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export PYTHONPATH=$exec_dir/py
cd "$W" && /opt/venv/bin/python -W ignore "$D/demo.py"
''')
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        print('wrote', b['id'])
