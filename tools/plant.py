#!/usr/bin/env python3
"""plant.py SPEC.py: write /verif/seeded/<id>/ for each entry of SPEC.BUGS.

An entry: dict(id, property, edits=[(file, old, new), ...], needs, breaks, demo)
demo is the text of a Python program (run with cwd /repo).
"""
import json
import os
import runpy
import subprocess
import sys
import tempfile
import shutil

SEEDED = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
DEMO = '''#!/bin/bash
. /opt/vp/env.sh 2>/dev/null
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
export PYTHONPATH=/repo OMP_NUM_THREADS=1
cd "$W" && python "$D/demo.py"
'''
for b in runpy.run_path(sys.argv[1])['BUGS']:
    if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]:
        continue
    d = os.path.join(SEEDED, b['id'])
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='plant')
    subprocess.run(['git', 'clone', '-q', '--shared', '/repo', tmp + '/r'], check=True)
    for f, old, new in b['edits']:
        p = os.path.join(tmp, 'r', f)
        s = open(p).read()
        assert s.count(old) == 1, (b['id'], f, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', tmp + '/r', 'diff'], check=True, capture_output=True, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    shutil.rmtree(tmp)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
              open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    print('planted', b['id'])
