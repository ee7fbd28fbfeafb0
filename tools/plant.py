"""Confirm a planted bug and keep it under seeded/<id>.  usage: plant.py plants.py [id...]
plants.py defines PLANTS: id -> dict(prop, file, old, new[, more=[(file, old, new)]], demo, needs, breaks).
Works on the tree PLANT_REPO (a scratch copy, else /repo) and restores it."""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# a scratch copy of the repository
REPO = os.environ.get('PLANT_REPO', '/repo')
DEMO_SH = '''#!/bin/sh
# run in the repository: 0 when the code behaves, 1 when it does not
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" /opt/venv-pypy/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


PY = '/opt/venv-pypy/bin/python'
ENV = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/tmp/plantpyc')


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def clean():
    assert sh('git -C %s checkout -q -- .' % REPO).returncode == 0


def edit(fn, old, new):
    p = os.path.join(REPO, fn)
    s = open(p, 'rb').read()
    crlf = b'\r\n' in s
    f = (lambda t: t.replace('\n', '\r\n').encode()) if crlf else (lambda t: t.encode())
    assert s.count(f(old)) == 1, (fn, s.count(f(old)), old)
    open(p, 'wb').write(s.replace(f(old), f(new)))


def main(argv):
    ns = {}
    exec(open(argv[0]).read(), ns)
    ids = argv[1:] or list(ns['PLANTS'])
    assert not sh('git -C %s status --porcelain' % REPO).stdout.strip()
    for i in ids:
        p = ns['PLANTS'][i]
        d = os.path.join(VERIF, 'seeded', i)
        os.makedirs(d, exist_ok=True)
        for n, t in (('demo.sh', DEMO_SH), ('demo.py', p['demo'])):
            open(os.path.join(d, n), 'w').write(t.lstrip('\n') if n == 'demo.py' else t)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': p['prop'], 'needs': p['needs'], 'what_it_breaks': p['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        r0 = sh(os.path.join(d, 'demo.sh'), cwd=REPO)
        try:
            for fn, o, n in [(p['file'], p['old'], p['new'])] + p.get('more', []):
                edit(fn, o, n)
            open(os.path.join(d, 'patch.diff'), 'wb').write(sh('git -C %s diff' % REPO).stdout)
            b = sh('%s -W ignore -m compileall -q -f gerber' % PY, cwd=REPO, env=ENV)
            t = sh('%s -W ignore -m pytest -q -p no:cacheprovider --disable-warnings gerber' % PY, cwd=REPO, env=ENV).stdout.decode().strip().splitlines()[-1]
            r1 = sh(os.path.join(d, 'demo.sh'), cwd=REPO)
            ok = r0.returncode == 0 and r1.returncode != 0 and b.returncode == 0 and t.startswith('330 passed')
            print(i, 'OK' if ok else 'BAD', '| demo %d -> %d | build %d | %s' % (r0.returncode, r1.returncode, b.returncode, t))
            if not ok:
                print(r0.stdout.decode()[-600:], '\n---\n', r1.stdout.decode()[-600:])
            elif p.get('check', True):
                c = sh('VERIF_REPO=%s %s/bin/check %s quick' % (REPO, VERIF, p['prop'])).stdout.decode()
                print('   ', 'CAUGHT' if 'VIOLATION property=' in c else 'MISSED', '; '.join(l for l in c.splitlines() if l.startswith('clause'))[:300])
                if 'VIOLATION' not in c:
                    print(c[-500:])
        finally:
            clean()


main(sys.argv[1:])
