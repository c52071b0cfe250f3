'''Is a run a function of its seed? Plays the same runs in several fresh
interpreters, with other hash seeds, in other orders, split over other numbers
of workers and next to other load, and compares the digests of the event logs.

  python3 tools/determinism.py [--n 60] [--start 0] [C01 ...]
'''
import argparse
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CODE = '''
import sys, json
sys.dont_write_bytecode = True
sys.path.insert(0, %r)
import check as c
from sim import core
pid, start, n, step, rev = json.loads(sys.argv[1])
k = c.load(pid)
out = {}
idx = list(range(start, start + n, step))
for i in (reversed(idx) if rev else idx):
    a, v = k.seeded(core.run_seed(1, pid, i), 'quick')
    out[i] = [a, v['lh'], len(v['v']), sorted(v['s'])[:3], v['e']] \\
        if a == 'ok' else [a, v]
print(json.dumps(out))
'''


def play(pid, start, n, step, rev, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed),
               PYTHONDONTWRITEBYTECODE='1')
    return subprocess.Popen(
        [sys.executable, '-c', CODE % HERE,
         json.dumps([pid, start, n, step, rev])], env=env, cwd=HERE,
        stdout=subprocess.PIPE, text=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('ids', nargs='*')
    ap.add_argument('--n', type=int, default=60)
    ap.add_argument('--start', type=int, default=0)
    ar = ap.parse_args()
    bad = 0
    for pid in ar.ids or ['C%02d' % i for i in range(1, 15)]:
        ps = [play(pid, ar.start, ar.n, 1, False, 0),
              play(pid, ar.start, ar.n, 1, True, 12345)]
        ps += [play(pid, ar.start + k, ar.n - k, 5, k % 2, 7 * k + 1)
               for k in range(5)]
        outs = [json.loads(p.communicate()[0]) for p in ps]
        base = outs[0]
        n = 0
        for o in outs[1:]:
            for i, v in o.items():
                n += 1
                if base[i] != v:
                    bad += 1
                    print(pid, 'run', i, 'differs:', base[i], v)
        print(pid, len(base), 'runs,', n, 'comparisons', flush=True)
    print('differences:', bad)
    return bad > 0


if __name__ == '__main__':
    sys.exit(main())
