"""Makes and confirms planted bugs: plant.py FILE...

Each FILE is Python that sets id, prop, needs, breaks, edits [(file, old, new)]
and demo (a Python program).  The bug is kept in seeded/<id> if the patched
copy passes the stable tests and its demo fails there and passes on /repo."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
# run in the root of the repository: fails if it has the bug
export PYTHONPATH=$PWD/src PYTHONDONTWRITEBYTECODE=1
exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
HEAD = '''import os, shutil, sys, tempfile, warnings
warnings.simplefilter('ignore')
import h5py
import numpy as np
import hdf5storage
D = tempfile.mkdtemp()
FN = os.path.join(D, 'f.h5')


def main():
'''
TAIL = '''

try:
    main()
finally:
    shutil.rmtree(D)
'''
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


for spec in sys.argv[1:]:
    b = {}
    exec(open(spec).read(), b)
    work = tempfile.mkdtemp(prefix='plant', dir='/tmp')
    try:
        r = os.path.join(work, 'r')
        sh(['git', 'worktree', 'prune'], '/repo')
        shutil.copytree('/repo', r, symlinks=True)
        for fn, old, new, *nth in b['edits']:
            p = os.path.join(r, 'src/hdf5storage', fn)
            s = open(p).read()
            parts = s.split(old)
            assert len(parts) > 1 and (nth or len(parts) == 2), (b['id'], fn, len(parts) - 1, old[:60])
            n = nth[0] if nth else 1
            open(p, 'w').write(old.join(parts[:n]) + new + old.join(parts[n:]))
        diff = sh(['git', 'diff'], r).stdout.decode()
        # removed lines have to be of the original repository
        own = sh(['git', 'rev-list', '--grep=^fix:', 'HEAD'], r).stdout.decode().split()
        out = os.path.join(work, 'seed')
        os.makedirs(out)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        open(os.path.join(out, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        body = ''.join('    ' + x + '\n' if x else '\n' for x in b['demo'].strip('\n').split('\n'))
        open(os.path.join(out, 'demo.py'), 'w').write(HEAD + body.rstrip('\n') + TAIL)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        c = sh([os.path.join(out, 'demo.sh')], '/repo')
        if c.returncode != 0:
            print(b['id'], 'DEMO FAILS ON CLEAN', c.stdout.decode()[-800:])
            continue
        d = sh([os.path.join(out, 'demo.sh')], r)
        if d.returncode == 0:
            print(b['id'], 'DEMO PASSES WITH BUG')
            continue
        env = dict(os.environ, PYTHONPATH=r + '/src:/opt/vp/plugins', PYTHONHASHSEED='0', PYTHONUTF8='1', PYTHONDONTWRITEBYTECODE='1', HOME='/root')
        x = os.path.join(work, 'junit.xml')
        sh([PY, '-m', 'pytest', '-q', '-p', 'vp_fixed_seed', '-p', 'no:cacheprovider', '--timeout=60', '-o', 'junit_family=xunit2', '--junitxml=' + x], r, env=env)
        sh(['/usr/bin/python3', '/opt/vp/results.py', work + '/out.json', 'junit:' + x], r)
        res = json.load(open(work + '/out.json'))
        bad = stable - set(res['passed'])
        if bad:
            print(b['id'], 'TESTS FAIL', len(bad), sorted(bad)[:3])
            continue
        dst = os.path.join(VERIF, 'seeded', b['id'])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        print(b['id'], 'kept;', d.stdout.decode().strip().split('\n')[-1][:150])
    finally:
        shutil.rmtree(work, ignore_errors=True)
