"""Make a planted bug from a description and confirm it (scratch copies only).

usage: seed.py FILE.py [--check]      FILE.py defines a list SEEDS of dicts:
  id, property, edits [(file, old, new)...], needs, breaks, demo (python text)
For each: patch applies, stable tests pass with it, demo passes without and fails with it.
Kept in /verif/seeded/<id>/ ; --check also runs the property's check on the patched copy.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
# exit 0: the property holds here
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$W/pyc" MPLBACKEND=Agg MPLCONFIGDIR="$W/mpl" PYTHONPATH="$PWD" SCRATCH="$W"
D=$(cd "$(dirname "$0")" && pwd)
cd "$W" && /opt/venv/bin/python -W ignore "$D/demo.py"
'''


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)


def tests(repo):
    w = tempfile.mkdtemp()
    env = dict(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONPYCACHEPREFIX=w + '/pyc',
               MPLCONFIGDIR=w + '/mpl', OMP_NUM_THREADS='1', PYTHONPATH=repo)
    shutil.rmtree(repo + '/tests/build', True)
    p = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--no-cov', '--timeout=300', '-x'], repo, env)
    shutil.rmtree(w, True)
    return p.returncode == 0, p.stdout[-1500:]


def one(s, docheck):
    out = f'/verif/seeded/{s["id"]}'
    work = tempfile.mkdtemp(prefix='seed-')
    repo = work + '/repo'
    try:
        subprocess.check_call(['cp', '-a', os.environ.get('SEED_SRC', '/repo'), repo])
        sh(['git', 'checkout', '-q', '--', '.'], repo)
        os.makedirs(work + '/demo')
        with open(work + '/demo/demo.sh', 'w') as f:
            f.write(DEMO)
        os.chmod(work + '/demo/demo.sh', 0o755)
        with open(work + '/demo/demo.py', 'w') as f:
            f.write(s['demo'].lstrip('\n'))
        p0 = sh(['bash', work + '/demo/demo.sh'], repo)
        for fn, a, b in s['edits']:
            t = open(f'{repo}/{fn}').read()
            if t.count(a) != 1:
                return s['id'], f'BAD edit: {t.count(a)} matches of {a!r}'
            open(f'{repo}/{fn}', 'w').write(t.replace(a, b))
        patch = sh(['git', 'diff'], repo).stdout
        p1 = sh(['bash', work + '/demo/demo.sh'], repo)
        ok, log = tests(repo)
        if p0.returncode != 0:
            return s['id'], 'BAD demo fails without the change\n' + p0.stdout[-1500:]
        if p1.returncode == 0:
            return s['id'], 'BAD demo passes with the change'
        if not ok:
            return s['id'], 'BAD tests fail\n' + log
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(patch)
        for f in ('demo.sh', 'demo.py'):
            shutil.copy(f'{work}/demo/{f}', out)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(out + '/meta.json', 'w'), indent=1)
        res = 'kept'
        if docheck:
            c = sh(['/verif/bin/check', s['property']], '/verif', {'CFD_REPO': repo})
            res += f' check rc={c.returncode} ' + ('CAUGHT' if c.returncode == 1 else 'MISSED')
            res += '\n    ' + '\n    '.join(c.stdout.strip().splitlines()[-4:])
        return s['id'], res
    finally:
        shutil.rmtree(work, True)


if __name__ == '__main__':
    spec = importlib.util.spec_from_file_location('seeds', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    only = [a for a in sys.argv[2:] if not a.startswith('-')]
    todo = [s for s in m.SEEDS if not only or s['id'] in only]
    with ThreadPoolExecutor(3) as ex:
        for i, r in ex.map(lambda s: one(s, '--check' in sys.argv), todo):
            print(i, r, flush=True)
