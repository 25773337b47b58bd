#!/usr/bin/env python3
"""mkbug.py SPEC.py  - SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source).
Writes seeded/ID/{patch.diff,demo.sh,demo.py,meta.json} against /repo HEAD (does not modify /repo)."""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = os.path.join(V, 'seeded', ns['ID'])
os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp(prefix='mkbug')
try:
    out = b''
    byf = {}
    for f, a, b in ns['EDITS']:
        s = byf.get(f) or open('/repo/' + f).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        byf[f] = s.replace(a, b)
    for f, s in byf.items():
        os.makedirs(os.path.dirname(t + '/b/' + f), exist_ok=True)
        os.makedirs(os.path.dirname(t + '/a/' + f), exist_ok=True)
        shutil.copy('/repo/' + f, t + '/a/' + f)
        open(t + '/b/' + f, 'w').write(s)
    r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'], cwd=t, stdout=subprocess.PIPE)
    out = r.stdout
finally:
    shutil.rmtree(t)
open(d + '/patch.diff', 'wb').write(out)
open(d + '/demo.py', 'w').write(ns['DEMO'].lstrip('\n'))
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd /repo: exit 0 when the property holds on the demonstrated history, nonzero otherwise
HERE="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 3
trap 'rm -rf "$T"' EXIT
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$T/mpl" XDG_CACHE_HOME="$T/c" ASTROPY_CACHE_DIR="$T/c" OMP_NUM_THREADS=1 REPO="$PWD"
mkdir -p "$T/mpl" "$T/c" "$T/w" && cd "$T/w" || exit 3
/opt/venv/bin/python -W ignore "$HERE/demo.py"
''')
os.chmod(d + '/demo.sh', 0o755)
json.dump(dict(property=ns['PROP'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
print(out.decode())
