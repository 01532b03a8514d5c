"""Make one planted bug:  seed(id, prop, [(file, old, new), ...], demo_python, needs, what)
Works in a scratch copy of /repo; keeps it only if the tests pass with it and the
demonstration passes without and fails with it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, 1 when it is broken; run with cwd = repository
cd "${REPO_DIR:-$PWD}" || exit 2
exec "${PY:-/opt/venv/bin/python}" "$(dirname "$0")/demo.py"
'''
HEAD = '''import os
import sys
sys.path.insert(0, os.getcwd())
from mpmath import mp
mp.dps = 50


def near(a, b, tol=mp.mpf(10)**-30):
    return abs(a - b) <= tol*(1 + abs(b))


'''


def sh(cmd, cwd, timeout=600, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, timeout=timeout, capture_output=True, text=True, **k)


def seed(sid, prop, edits, demo, needs, what, tests=True):
    out = f'/verif/seeded/{sid}'
    if os.path.exists(out + '/patch.diff'):
        return True
    tmp = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    rc = f'{tmp}/repo'
    try:
        subprocess.run(['cp', '-a', '/repo', rc], check=True)
        for f, old, new in edits:
            p = f'{rc}/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                print('EDIT', sid, f, s.count(old), old)
                return False
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', rc).stdout
        assert diff
        root = sh('git log --format=%H | tail -1', '/repo').stdout.strip()
        for f, old, new in edits:
            orig = sh(f'git show {root}:{f}', '/repo').stdout.splitlines()
            gone = [x for x in old.splitlines() if x not in new.splitlines()]
            if not all(x in orig for x in gone) or not gone:
                print(sid, 'NOT ORIGINAL LINES', f, [x for x in gone if x not in orig])
                return False
        os.makedirs(f'{tmp}/d', exist_ok=True)
        open(f'{tmp}/d/demo.sh', 'w').write(DEMO)
        open(f'{tmp}/d/demo.py', 'w').write(HEAD + demo.strip() + '\n')
        os.chmod(f'{tmp}/d/demo.sh', 0o755)
        bad = sh(f'bash {tmp}/d/demo.sh', rc)
        good = sh(f'bash {tmp}/d/demo.sh', '/repo')
        if good.returncode != 0 or bad.returncode == 0:
            print(sid, 'DEMO WRONG: good', good.returncode, good.stderr[-500:], 'bad', bad.returncode,
                  bad.stdout[-300:])
            return False
        if tests:
            t = sh('/opt/venv/bin/python -m pytest -x -q -n 8 mpsci 2>&1 || true', rc, 1200).stdout
            if 'unrecognized arguments' in t:
                t = sh('/opt/venv/bin/python -m pytest -x -q mpsci 2>&1', rc, 1200).stdout
            last = t.strip().splitlines()[-1]
            if 'failed' in last or 'error' in last or '1670 passed' not in last:
                print(sid, 'TESTS FAIL', t[-800:])
                return False
        os.makedirs(out, exist_ok=True)
        open(f'{out}/patch.diff', 'w').write(diff)
        shutil.copy(f'{tmp}/d/demo.sh', out)
        shutil.copy(f'{tmp}/d/demo.py', out)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(f'{out}/meta.json', 'w'), indent=1)
        print(sid, 'ok')
        return True
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
