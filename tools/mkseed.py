#!/usr/bin/env python3
"""mkseed.py ID PROPERTY NEEDS BREAKS FILE OLD NEW [FILE OLD NEW...] < demo.py:
writes /verif/seeded/ID (patch.diff, demo.sh, demo.py, meta.json)."""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, prop, needs, breaks = sys.argv[1:5]
edits = sys.argv[5:]
d = tempfile.mkdtemp(prefix='mkseed.', dir='/tmp')
try:
    a = os.path.join(d, 'repo')
    subprocess.check_call(['git', 'clone', '-q', '/repo', a])
    for fn, old, new in zip(edits[::3], edits[1::3], edits[2::3]):
        p = os.path.join(a, 'profiling', fn)
        s = open(p).read()
        assert s.count(old) == 1, (fn, old, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', 'diff'], cwd=a)
finally:
    shutil.rmtree(d)
out = os.path.join(VERIF, 'seeded', i)
os.makedirs(out, exist_ok=True)
open(out + '/patch.diff', 'wb').write(diff)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
          open(out + '/meta.json', 'w'), indent=1)
open(out + '/demo.sh', 'w').write('''#!/bin/bash
# Run in the repository.  Exits 0 if the property holds.
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python --jit off -W ignore "$(dirname "$0")/demo.py"
''')
demo = sys.stdin.read()
if demo.strip():
    open(out + '/demo.py', 'w').write(demo)
