'''C02: results depend only on the arguments and the selected network.

One session makes many calls over several networks, out of a small pool of
calls, so the same call meets different networks and different pasts. Faults:
calls that fail, unknown networks, the caller overwriting values it got back
and buffers it passed, clock jumps, and an interpreter with another hash seed.
Oracle: the same call made by a process that has never called the library.
'''
import json
import os
import subprocess
import sys

from sim import calls, gen, lib, session
from sim.core import VERIF
from sim.node import Fresh

ID = 'C02'
RUNS = dict(quick=3500, thorough=150000)
COMPONENTS = dict(
    real=['all of riemann (networks, encodings, scripts, builders, '
          'transaction classes, hashing)'],
    stub=['clock (time.* replaced by the simulated clock)'])


def gen_(rng, tier):
    fams = rng.pick([(3, None), (1, 'zec'), (1, 'seg'), (1, 'one')])
    if fams == 'zec':
        nets = [gen.net_for(rng, f) for f in ('spr', 'ow', 'sap')]
    elif fams == 'seg':
        nets = [rng.choice(gen.SEGWIT_NETS) for _ in range(3)]
    elif fams == 'one':
        nets = [gen.any_net(rng)]
    else:
        nets = [gen.any_net(rng) for _ in range(rng.randint(2, 5))]
    pool = calls.Pool(rng, nets, big=rng.chance(.1))
    c = calls.Calls(rng, pool, mut=rng.choice([0, .15, .5]))
    long = rng.chance(.1)
    npool = rng.randint(4, 14) if not long else 25
    if rng.chance(.35):     # on one function, however rarely it is called
        nets, same, xs = calls.one_function(
            rng, nets=rng.randint(1, 4), mut=rng.choice([0, .15, .5]))
        pl = [rng.choice(same) for _ in range(rng.randint(1, 6))]
        if rng.chance(.3):
            pl += [rng.choice(xs) for _ in range(3)]
    elif rng.chance(.3):    # concentrate on a few kinds of call
        kinds = [rng.choice(['utils', 'script', 'base58', 'bech32', 'cash',
                             'addr', 'builder', 'simple', 'part', 'tx',
                             'decode', 'sighash', 'method', 'std', 'varint',
                             'blake']) for _ in range(2)]
        pl = [getattr(c, 'c_' + rng.choice(kinds))(rng.choice(nets))
              for _ in range(npool)]
    else:
        pl = [c.call(rng.choice(nets)) for _ in range(npool)]
    steps = []
    built = {}      # step -> (net, expr) usable as a reference
    cur = rng.choice(nets)
    for i in range(rng.randint(8, 30) if not long else 150):
        if rng.chance(.35):
            cur = rng.choice(nets)
        x = rng.choice(pl)
        # use an object an earlier step made, where that is the same recipe
        # (streaming hashers are stateful by contract: C11)
        if 'on' in x and rng.chance(.6) \
                and not x['on'].get('f', '').startswith('blake256'):
            key = json.dumps(x['on'], sort_keys=True)
            if key in built:
                x = dict(x, on={'r': built[key]})
            elif rng.chance(.5):
                steps.append(dict(net=cur, x=x['on'], keep=True))
                built[key] = len(steps) - 1
                x = dict(x, on={'r': built[key]})
        st = dict(net=cur, x=x)
        if rng.chance(.25):
            st['scribble'] = True
        if rng.chance(.05):
            st['clock'] = rng.choice([-86400, 3600, 86400 * 400])
        if long and not rng.chance(.3):
            st['skip'] = True       # no comparison for this one
        steps.append(st)
    sc = dict(steps=steps)
    if rng.chance(.02):
        sc['hashseed'] = rng.randint(1, 1000)
    return sc




def execute(sc, res):
    fresh = Fresh(session.program)
    refs, recipe = {}, {}
    seen = set()
    other = []
    cur = None
    for i, st in enumerate(sc['steps']):
        net, x = st['net'], st['x']
        if 'clock' in st:
            lib.Clock.now += st['clock']
            res.fault('clock_jump')
        need = sorted(session.ref_slots(x))
        if any(n not in recipe for n in need):
            continue        # (only in shrunk scenarios)
        if net != cur:      # as a user would: only when it changes
            lib.select(net)
            cur = net
        klass = lib.riemann.network
        sel0 = selection()
        state0 = lib.canon(vars_of(klass))
        try:
            fn, a, k = lib.prepare(x, refs)
        except Exception:
            # an argument could not be made: nothing to call
            res.ev(i, net, 'args')
            continue
        before = lib.canon([a, k])
        value = None
        try:
            value = fn(*a, **k)
            got = ['v', lib.canon(value)]
        except Exception as e:
            got = lib.exc(e, True)
            res.fault('failing_call')
        res.real_calls += 1
        after = lib.canon([a, k])
        name = x.get('f') or x.get('m') or x.get('g')
        if name == 'riemann.select_network':
            res.fault('unknown_network')
        if before != after:
            res.fail('argument changed', step=i, call=name, before=before,
                     after=after)
        if lib.riemann.network is not klass or selection() != sel0:
            res.fail('selected network changed', step=i, call=name, net=net)
        elif lib.canon(vars_of(klass)) != state0:
            res.fail('network parameters changed', step=i, call=name,
                     net=net)
        prog = [recipe[n] for n in need] + [[net, None, x]]
        if st.get('keep'):
            if got[0] == 'v':
                refs[i] = value
                recipe[i] = [net, i, x]
        if not st.get('skip'):
            want = fresh.run(prog)
            if got != want:
                res.fail('depends on the past', step=i, net=net, call=name,
                         got=got, want=want)
            if 'hashseed' in sc:
                other.append((i, prog, got))
        res.ev(i, net, name, got[0] if got[0] != 'x' else got[1])
        seen.add((name, net, got[0]))
        res.state(name, net, got[:2] if got[0] == 'x' else 'v')
        if st.get('scribble'):
            n = session.scribble(value)
            # buffers the session passed, but not library objects in use
            for v in list(a) + list(k.values()):
                if isinstance(v, (bytearray, list)):
                    n += session.scribble(v)
            res.fault('caller_overwrites_values', n)
        if res.violations:
            break
    if other and not res.violations:
        reseeded(sc['hashseed'], other, res)
    fresh.stop()
    res.nontrivial = len(seen) > 3


def selection():
    'the selected network as the library tells it'
    return [lib.riemann.get_current_network_name(),
            lib.canon(lib.riemann.get_current_network())]


def vars_of(klass):
    'public parameters of a network class'
    return {n: getattr(klass, n) for n in dir(klass)
            if not n.startswith('_') and not callable(getattr(klass, n))}


def reseeded(hashseed, other, res):
    'the same calls in an interpreter with another hash seed'
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    code = ('import sys, json; sys.dont_write_bytecode = True; '
            'sys.path.insert(0, %r)\n'
            'from sim import session\n'
            'from sim.core import in_child\n'
            'for l in sys.stdin:\n'
            '    k, v = in_child(lambda: session.program(json.loads(l)))\n'
            '    print(json.dumps([k, v]))\n' % VERIF)
    p = subprocess.run(
        [sys.executable, '-c', code], env=env, text=True,
        input=''.join(json.dumps(q) + '\n' for _, q, _ in other),
        capture_output=True)
    lines = p.stdout.splitlines()
    if p.returncode or len(lines) != len(other):
        raise RuntimeError('reseeded interpreter failed: ' + p.stderr[-500:])
    res.fault('other_hash_seed', len(lines))
    for (i, _, got), line in zip(other, lines):
        k, v = json.loads(line)
        if k != 'ok':
            raise RuntimeError('reseeded interpreter failed: %r' % v)
        if v != got:
            res.fail('depends on the hash seed', step=i, got=got, want=v)
            break
