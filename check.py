#!/usr/bin/env python3
'''Decide one property by seeded deterministic simulation.

  check.py C04 [--tier quick|thorough] [--seed N]   explore
  check.py --replay FILE                            play one recorded scenario

exit 0: held on everything explored; 1: VIOLATION line; 2: the check failed
'''
import argparse
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') is None or \
        os.environ.get('PYTHONDONTWRITEBYTECODE') is None:
    os.environ.setdefault('PYTHONHASHSEED', '0')
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable, os.path.abspath(__file__)]
             + sys.argv[1:])
sys.path.insert(0, HERE)
os.chdir(HERE)

import importlib                                        # noqa: E402
import subprocess                                       # noqa: E402
from time import monotonic                              # noqa: E402

from sim import core                                    # noqa: E402


def load(pid):
    from sim import lib     # noqa: F401 (library imported once, uncalled)
    mod = importlib.import_module('sim.checks.' + pid.lower())
    core.pristine()
    return core.Check(mod)


def known(pid):
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as f:
            d = json.load(f)
    except FileNotFoundError:
        return {}
    return {k['class']: k for k in d['known'] if k['property'] == pid}


def chunk_size(total, workers):
    return max(workers * 10, min(total // 8 or 1, workers * 60))


def shorten(x, n=4000):
    s = json.dumps(x, default=core._default)
    return x if len(s) <= n else s[:n] + '...'


def explore(check, tier, master, runs, workers, budget, start=0):
    t0 = monotonic()
    deadline = t0 + budget
    total = dict(runs=0, e=0, t=0, c=0, f={}, p={}, s=set(), nt=0, bad=[],
                 err=[], shapes=set(), known={})
    known_cls = known(check.id)
    fresh_bad = []
    size = chunk_size(runs, workers)
    at = start
    while at < start + runs and monotonic() < deadline:
        n = min(size, start + runs - at)
        t = core.batch(check, master, tier, at, n, workers, deadline,
                       set(known_cls))
        core.merge(total, t)
        for i, seed, vs in sorted(t['bad']):
            for v in vs:
                if v['cls'] in known_cls:
                    k = total['known'].setdefault(v['cls'], [0, seed])
                    k[0] += 1
                else:
                    fresh_bad.append((i, seed, v))
        at += n
        if fresh_bad or len(total['err']) > 5:
            break
    total['wall'] = monotonic() - t0
    total['planned'] = runs
    return total, fresh_bad, known_cls


def replay_file(check, tier, master, bad):
    'shrink the first violation that repeats and write its replay file'
    for i, seed, v in bad[:4]:
        sc = json.loads(json.dumps(check.make(seed, tier)))
        k, r = check.isolated(sc)
        if k == 'ok' and any(x['cls'] == v['cls'] for x in r['v']):
            break
    else:
        # seen, but the library did not do it again: not even its own doing
        # is a function of the scenario; reported as it was seen
        i, seed, v = bad[0]
        sc = json.loads(json.dumps(check.make(seed, tier)))
        return write_replay(check, tier, master, i, seed, v, sc, sc, 0,
                            dict(log=[], lh='')), v, False, 0
    small, tries = (sc, 0)
    if v['cls'] != 'hang':
        small, tries = core.shrink(check, sc, v['cls'])
    k, r = check.isolated(small, True)
    hit = [x for x in r['v'] if x['cls'] == v['cls']] if k == 'ok' else []
    if not hit:
        small = sc
        k, r = check.isolated(small, True)
        hit = [x for x in r['v'] if x['cls'] == v['cls']] or [v]
    path = write_replay(check, tier, master, i, seed, hit[0], sc, small,
                        tries, r)
    # in a fresh process: it must fail the same way
    p = subprocess.run([sys.executable, os.path.abspath(__file__),
                        '--replay', path], capture_output=True, text=True)
    return path, hit[0], p.returncode == 1, tries


def write_replay(check, tier, master, i, seed, v, sc, small, tries, r):
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    path = os.path.join(HERE, 'replays', f'{check.id}-{seed:016x}.json')
    with open(path, 'w') as f:
        json.dump(dict(property=check.id, tier=tier, master_seed=master,
                       index=i, seed=seed, cls=v['cls'], detail=v,
                       scenario=small, log=r['log'], log_digest=r['lh'],
                       original_size=len(json.dumps(sc)),
                       size=len(json.dumps(small)), shrink_tries=tries),
                  f, indent=1, default=core._default)
    return path


def do_replay(path):
    with open(path) as f:
        rec = json.load(f)
    check = load(rec['property'])
    k, r = check.isolated(rec['scenario'], True)
    if k != 'ok':
        print('REPLAY-ERROR', k, str(r)[:2000])
        return 2
    hit = [x for x in r['v'] if x['cls'] == rec['cls']]
    if hit:
        same = r['lh'] == rec['log_digest']
        print(json.dumps(hit[0], indent=1, default=core._default)[:6000])
        print('event log identical to the recorded one:', same)
        print(f"VIOLATION property={rec['property']} replay={path}")
        return 1
    print('not reproduced; violations now:', r['v'])
    return 0


def samples(check, tier, master, start=0):
    out = []
    for i in range(start, start + 3):
        seed = core.run_seed(master, check.id, i)
        try:
            sc = check.make(seed, tier)
            k, r = check.isolated(json.loads(json.dumps(sc)), True)
        except core.RunFailed:
            continue
        if k == 'ok':
            out.append(dict(seed=seed, scenario=shorten(sc),
                            events=r['e'], log=shorten(r['log'][:40], 2500)))
    return out


def evidence(check, tier, master, total, result, extra):
    wall = total['wall']
    mod = check.mod
    cov = dict(
        evaluations=total['runs'],
        distinct_nontrivial=len(total['shapes']),
        rule=mod.__doc__.strip() + '  --  A run counts when it is '
        'non-trivial (' + getattr(mod, 'NONTRIVIAL', 'it made several '
        'different calls or steps') + '); runs are distinct when their '
        'event logs differ.',
        samples=extra.pop('samples'),
        runs_planned=total['planned'],
        runs_per_hour=round(total['runs'] / max(wall, .01) * 3600),
        seeds=dict(master=master, first_index=0, count=total['runs'],
                   derivation='sha256(master/check/index)'),
        seeds_per_hour=round(total['runs'] / max(wall, .01) * 3600),
        nontrivial_runs=total['nt'],
        simulator_events=total['e'],
        simulated_time_ms=total['t'],
        calls_into_library=total['c'],
        faults_injected=dict(sorted(total['f'].items())),
        distinct_states=len(total['s']),
        state_measure=getattr(mod, 'STATES', 'digest of (call, network, '
                              'fault, outcome)'),
        probes=dict(sorted(total['p'].items())),
        components=mod.COMPONENTS,
        harness_errors=len(total['err']),
        known_findings={k: v[0] for k, v in total['known'].items()},
        result=result, **extra)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    path = os.path.join(HERE, 'evidence', check.id + '.json')
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(dict(property=check.id, tier=tier, seed=master,
                       level='exploration', coverage=cov,
                       wall_s=round(wall, 2)), f, indent=1,
                  default=core._default)
    os.replace(tmp, path)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--start', type=int, default=0)
    ap.add_argument('--workers', type=int, default=os.cpu_count() or 4)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--show', type=int, help='play run N and print its log')
    ap.add_argument('--no-evidence', action='store_true')
    ar = ap.parse_args()
    if ar.replay:
        return do_replay(ar.replay)
    check = load(ar.property)
    tier = ar.tier
    if ar.show is not None:
        seed = core.run_seed(ar.seed, check.id, ar.show)
        sc = check.make(seed, tier)
        print(json.dumps(sc)[:20000])
        k, r = check.isolated(json.loads(json.dumps(sc)), True)
        print(k)
        print(r if k != 'ok' else json.dumps(
            {x: r[x] for x in ('v', 'f', 'p', 'e', 't', 'c', 'n')}, indent=1,
            default=core._default))
        for line in (r['log'] if k == 'ok' else ()):
            print(json.dumps(line)[:200])
        return 0
    runs = ar.runs or check.mod.RUNS[tier]
    budget = ar.budget or float(os.environ.get(
        'VERIF_BUDGET_S', 400 if tier == 'quick' else 780))
    total, bad, known_cls = explore(check, tier, ar.seed, runs, ar.workers,
                                    budget, ar.start)
    code, result = 0, 'held'
    for cls, k in sorted(known_cls.items()):
        if cls in total['known']:
            print(f'KNOWN-FINDING: property={check.id} {k["what"]} '
                  f'({total["known"][cls][0]} times, first seed '
                  f'{total["known"][cls][1]:016x})')
    extra = {}
    if bad:
        try:
            path, detail, again, tries = replay_file(check, tier, ar.seed, bad)
            print(json.dumps(detail, indent=1, default=core._default)[:3000])
            print('replayed in a fresh process:', again,
                  f'({tries} shrinking runs)')
            print(f'VIOLATION property={check.id} replay={path}')
            code, result = 1, 'violated'
            extra['violation'] = shorten(detail)
            if not again:
                extra['replay_in_fresh_process'] = False
        except core.RunFailed as e:
            print('CHECK-ERROR', e)
            code, result = 2, 'error'
    elif total['err']:
        for e in total['err'][:3]:
            print('CHECK-ERROR', str(e)[:3000])
        code, result = 2, 'error'
    elif not total['runs']:
        print('CHECK-ERROR no run finished')
        code, result = 2, 'error'
    if not ar.no_evidence:
        extra['samples'] = samples(check, tier, ar.seed) if code != 2 else []
        evidence(check, tier, ar.seed, total, result, extra)
    print(f'{check.id} {tier}: {result}; {total["runs"]} runs, '
          f'{total["e"]} events, {total["c"]} library calls, '
          f'{len(total["shapes"])} distinct, {len(total["s"])} states, '
          f'{total["wall"]:.1f} s; faults {total["f"]}; '
          f'probes {total["p"]}')
    return code


if __name__ == '__main__':
    sys.exit(main())
