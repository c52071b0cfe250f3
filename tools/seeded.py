'''Confirm the planted bugs in /verif/seeded (or those named): the patch
applies, builds, passes the stable tests, the demonstration tells the trees
apart, and which checks catch it. Works on copies under /tmp.

  python3 tools/seeded.py [--checks C01,C02|all|own] [--no-confirm] [ID ...]
'''
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, 'seeded')
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1',
           PYTHONPYCACHEPREFIX='/nonexistent/pycache', PYTHONHASHSEED='0')


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('stable', 'stable_pass', 'passed', 'tests'):
        if k in b:
            return b[k]
    return None


def tests_pass(d):
    r = subprocess.run(
        ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p',
         'no:cacheprovider', 'riemann/tests'], cwd=d, env=ENV,
        capture_output=True, text=True)
    return r.returncode == 0, r.stdout[-400:]


def demo(i, d):
    t = tempfile.mkdtemp(prefix='demo_')
    try:
        for f in os.listdir(os.path.join(SEED, i)):
            if f.endswith(('.diff', '.patch')) or f == 'meta.json':
                continue
            shutil.copy(os.path.join(SEED, i, f), t)
        r = subprocess.run(['bash', os.path.join(t, 'demo.sh')], cwd=d,
                           env=dict(os.environ), capture_output=True,
                           text=True, timeout=300)
        return r.returncode, (r.stdout + r.stderr)[-300:]
    finally:
        shutil.rmtree(t)


def one(i, ar):
    meta = json.load(open(os.path.join(SEED, i, 'meta.json')))
    d = tempfile.mkdtemp(prefix='seed_')
    out = dict(id=i, property=meta['property'])
    try:
        w = os.path.join(d, 'repo')
        shutil.copytree('/repo', w, symlinks=True)
        if ar.confirm:
            c, t = demo(i, w)
            if c != 0:
                out['problem'] = f'demo fails on the unchanged tree: {t}'
                return out
        r = subprocess.run(['git', 'apply', os.path.join(SEED, i,
                                                         'patch.diff')],
                           cwd=w, capture_output=True, text=True)
        if r.returncode:
            out['problem'] = 'patch: ' + r.stderr
            return out
        if ar.confirm:
            ok, t = tests_pass(w)
            if not ok:
                out['problem'] = 'tests: ' + t
                return out
            c, t = demo(i, w)
            if c == 0:
                out['problem'] = 'demo passes with the patch'
                return out
            out['demo'] = t.strip().splitlines()[-1:]
        which = (meta['property'] if ar.checks == 'own' else ar.checks)
        if which == 'all':
            which = ','.join('C%02d' % n for n in range(1, 15))
        out['caught'] = {}
        for c in which.split(',') if which != 'none' else ():
            t0 = time.time()
            r = subprocess.run(
                [sys.executable, 'check.py', c, '--tier', 'quick',
                 '--no-evidence', '--seed', str(ar.seed)], cwd=HERE,
                env=dict(os.environ, RIEMANN_REPO=w), capture_output=True,
                text=True)
            cls = [x.split('"')[3] for x in r.stdout.splitlines()
                   if x.startswith(' "cls"')]
            out['caught'][c] = [r.returncode, (cls or [''])[0],
                                round(time.time() - t0)]
            if r.returncode == 2:
                out['problem'] = r.stdout[-500:]
    finally:
        shutil.rmtree(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('ids', nargs='*')
    ap.add_argument('--checks', default='own')
    ap.add_argument('--no-confirm', dest='confirm', action='store_false')
    ap.add_argument('--jobs', type=int, default=1)
    ap.add_argument('--seed', type=int, default=1)
    ar = ap.parse_args()
    ids = ar.ids or sorted(os.listdir(SEED))
    with ThreadPoolExecutor(ar.jobs) as ex:
        for o in ex.map(lambda i: one(i, ar), ids):
            print(json.dumps(o), flush=True)


if __name__ == '__main__':
    main()
