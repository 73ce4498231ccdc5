#!/usr/bin/env python3
"""make /verif/seeded/<id>/ from a description (a python file with ID, PROPERTY, EDITS = [(file, old, new)], DEMO, NEEDS, BREAKS), after verification in a scratch copy
usage: plant.py DESCRIPTION..."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '2b2efea'
SH = '''#!/bin/bash
# exit 0 when the property holds on this scenario
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONWARNINGS=ignore OPENBLAS_NUM_THREADS=1
export PYTHONPATH="$PWD:$D/stubs"
exec /opt/venv/bin/python "$D/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


for f in [a for a in sys.argv[1:] if not a.startswith('--')]:
    d = runpy.run_path(f)
    W = tempfile.mkdtemp(prefix='plant')
    R = os.path.join(W, 'repo')
    ok = True
    try:
        sh('cp -a /repo %s' % R)
        own = set(sh('git log --format=%%H %s..HEAD' % BASE, cwd=R).stdout.split())
        for file, old, new in d['EDITS']:
            s = open(os.path.join(R, file)).read()
            assert s.count(old) == 1, (f, file, s.count(old), old)
            open(os.path.join(R, file), 'w').write(s.replace(old, new))
        diff = sh('git diff', cwd=R).stdout
        assert diff
        # only original lines are changed
        orig = 0
        for file in {e[0] for e in d['EDITS']}:
            blame = sh('git blame -s -l --no-abbrev HEAD -- %s' % file, cwd=R).stdout.split('\n')
            u = sh('git diff -U0 -- %s' % file, cwd=R).stdout
            for l in u.splitlines():
                if l.startswith('@@'):
                    a = l.split()[1][1:].split(',')
                    st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    for k in range(st, st + n):
                        if blame[k - 1].split()[0].lstrip('^') in own:
                            print(d['ID'], 'NOT ORIGINAL:', file, k, blame[k - 1][41:120])
                            ok = False
                        else:
                            orig += 1
        if not orig:
            print(d['ID'], 'no original line changed')
            ok = False
        out = os.path.join(W, d['ID'])
        os.mkdir(out)
        shutil.copytree(os.path.join(V, 'stubs'), os.path.join(out, 'stubs'), ignore=shutil.ignore_patterns('__pycache__'))
        open(os.path.join(out, 'demo.py'), 'w').write(d['DEMO'].lstrip('\n'))
        open(os.path.join(out, 'demo.sh'), 'w').write(SH)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        json.dump({'property': d['PROPERTY'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        clean = sh('bash %s/demo.sh' % out, cwd='/repo', timeout=300)
        bad = sh('bash %s/demo.sh' % out, cwd=R, timeout=300)
        tests = sh('PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider fixif/func_aux/test/test_MPFmatrix.py --timeout=300', cwd=R)
        comp = sh('find fixif -name "*.py" | PYTHONDONTWRITEBYTECODE=1 xargs -n1 /opt/venv/bin/python -W ignore -c "import ast,sys; ast.parse(open(sys.argv[1]).read())"', cwd=R)
        if clean.returncode or not bad.returncode or '8 passed' not in tests.stdout or comp.returncode:
            ok = False
            print(d['ID'], 'clean %d (%s) patched %d tests %d' % (clean.returncode, clean.stderr[-600:], bad.returncode, tests.returncode), tests.stdout[-300:] if tests.returncode else '', comp.stderr[-300:])
        assert sh('git status --porcelain', cwd='/repo').stdout == ''
        if ok:
            dst = os.path.join(V, 'seeded', d['ID'])
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(out, dst)
            r = sh('RV_REPO=%s VERIF_SEED=1 %s/check %s' % (R, V, d['PROPERTY'])) if '--nocheck' not in sys.argv else None
            print(d['ID'], 'planted;', d['PROPERTY'], 'CAUGHT' if r and r.returncode == 1 and 'VIOLATION property=%s' % d['PROPERTY'] in r.stdout else 'MISSED', '| demo: ' + (bad.stderr.strip().splitlines() or bad.stdout.strip().splitlines() or [''])[-1][:150])
        elif '--try' in sys.argv and bad.returncode and not clean.returncode:
            # (only to see whether the check reports it)
            r = sh('RV_REPO=%s VERIF_SEED=1 %s/check %s' % (R, V, d['PROPERTY']))
            print(d['ID'], 'not planted;', d['PROPERTY'], 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=%s' % d['PROPERTY'] in r.stdout else 'MISSED')
    finally:
        shutil.rmtree(W)
