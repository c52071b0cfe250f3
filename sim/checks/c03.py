'''C03: concurrent callers get the results they would get alone.

Two to five caller threads run real library code; a seeded scheduler decides
after every line (or single bytecode) of library code which of them goes on.
Threads use their own arguments or share built objects and argument buffers.
Oracle: each thread's calls made alone, in a process of their own.
'''
import json

from sim import calls, gen, lib, session, trace
from sim.node import Fresh

ID = 'C03'
RUNS = dict(quick=12000, thorough=200000)
COMPONENTS = dict(
    real=['all of riemann, in real threads run one at a time'],
    stub=['thread scheduling (seeded; switch points are line or bytecode '
          'boundaries of library code)', 'threading.Lock and RLock'])
NONTRIVIAL = 'at least one thread was preempted in the middle of a call'
STATES = 'digest of (thread, from step, to thread) switch sequence'

KINDS = calls.KINDS


def cold(rng, tier):
    '''the first calls a process ever makes, all of one kind: whatever the
    library sets up on first use is being set up while others look'''
    (net,), same, xs = calls.one_function(rng)
    name = session.name_of(same[0])
    if rng.chance(.8):
        xs = same
    valid = [x for x in xs if len(x.get('a', ())) and x.get('f', '').split(
        '.')[0] in ('base58', 'bech32', 'cashaddr', 'addr')
        and isinstance(x['a'][-1], str)]
    xs = xs + valid                                     # rather valid ones
    if rng.chance(.6):      # the same call at the same time, or one of two
        xs = [rng.choice(xs) for _ in range(rng.randint(1, 2))]
    n = rng.pick([(5, 2), (1, 3)])
    shared, share = sharer(rng)
    if rng.chance(.7):
        xs = [share(x) for x in xs]
    threads = [[rng.choice(xs) for _ in range(rng.randint(1, 2))]
               for _ in range(n)]
    t = rng.randrange(n)
    plan = meeting(rng, n, name) if rng.chance(.7) else []
    for _ in range(0 if plan else rng.pick([(5, 1), (2, 2), (1, 4)])):
        # a preemption anywhere, with a liking for the beginning
        plan.append([t, {'frac': rng.random()} if rng.chance(.4)
                     else int(2 ** (rng.choice([3, 9])
                                     * rng.random()))])
        t = (t + rng.randint(1, n - 1)) % n
        if rng.chance(.7):
            plan.append([t, {'frac': 2}])
            t = (t + rng.randint(1, n - 1)) % n
    return dict(net=net, shared=shared, threads=threads, plan=plan,
                built=rng.chance(.7),
                mode='opcode' if rng.chance(.3) else 'line')


def sharer(rng):
    'expressions built once for all threads, and what refers to them'
    shared, index = [], {}

    def share(x):
        'let threads refer to one object'
        if not isinstance(x, dict) or rng.chance(.3):
            return x
        if 'on' in x:
            f = x['on'].get('f', '')
            if f and not f.startswith('blake256'):
                key = json.dumps(x['on'], sort_keys=True)
                if key not in index:
                    index[key] = len(shared)
                    shared.append(x['on'])
                return dict(x, on={'r': index[key]})
        if 'a' in x:
            out = []
            for y in x['a']:
                if isinstance(y, dict) and ('l' in y or 'ba' in y
                                            or 'f' in y):
                    key = json.dumps(y, sort_keys=True)
                    if key not in index:
                        index[key] = len(shared)
                        shared.append(y)
                    y = {'r': index[key]}
                out.append(y)
            return dict(x, a=out)
        return x
    return shared, share


def gen_(rng, tier):
    if rng.chance(.6):
        return cold(rng, tier)
    net = gen.any_net(rng)
    pool = calls.Pool(rng, [net], big=rng.chance(.03))
    c = calls.Calls(rng, pool, mut=rng.choice([0, .3]))
    n = rng.pick([(6, 2), (2, 3), (1, 5)])
    shared, share = sharer(rng)
    sharing = rng.chance(.6)
    style = rng.randrange(4)
    kinds = [rng.choice(KINDS) for _ in range(rng.randint(1, 2))]

    def one():
        if style in (0, 1):
            x = getattr(c, 'c_' + rng.choice(kinds))(net)
        else:
            x = c.call(net)
        while 'select_network' in x.get('f', ''):
            x = c.call(net)
        return share(x) if sharing else x
    some = [one() for _ in range(3)]
    if style in (1, 2):     # the same function, with other arguments
        k = session.name_of(some[0])
        for _ in range(12):
            x = one()
            if session.name_of(x) == k:
                some.append(x)
    threads = []
    for _ in range(n):
        k = rng.pick([(4, 1), (3, 2), (1, 4)])
        threads.append([rng.choice(some) if rng.chance(.6) else one()
                        for _ in range(k)])
    plan = []
    if rng.chance(.3):
        plan = meeting(rng, n)
    elif rng.chance(.4):
        # one or two preemptions at chosen points
        t = rng.randrange(n)
        for _ in range(rng.randint(1, 3)):
            plan.append([t, {'frac': rng.random()}])
            u = (t + rng.randint(1, n - 1)) % n
            plan.append([u, rng.choice([{'frac': rng.random()},
                                        {'frac': 2}, 1, 5])])
            t = rng.choice([t, u])
    elif rng.chance(.4):
        hi = rng.choice([.02, .1, .5])
        for _ in range(rng.choice([6, 20, 60])):
            plan.append([rng.randrange(n), {'frac': hi * rng.random()}])
    else:
        hi = rng.choice([2, 5, 20, 100])
        for _ in range(rng.choice([10, 60, 300])):
            plan.append([rng.randrange(n), rng.randint(1, hi)])
    return dict(net=net, shared=shared, threads=threads, plan=plan,
                built=rng.chance(.3),
                mode='opcode' if rng.chance(.3) else 'line')


def alone(cmd):
    net, shared, xs, mode, built = cmd
    lib.select(net)
    refs = {i: _try(x) for i, x in enumerate(shared)}
    prof = trace.Profile()
    fn = thread(xs, refs, built)
    s = trace.Scheduler([fn], [], mode, 40_000_000, prof)
    return [dump(s.run()[0], built), s.steps, prof.result()]


def meeting(rng, n, name=None):
    '''threads stop in the same function, some way through; they leave it in
    one order or another'''
    u, v = rng.random(), rng.choice([0, rng.random()])
    if name and rng.chance(.5):
        u = name.split('.')[-1]
    order = list(range(n))
    rng.shuffle(order)
    plan = []
    for t in order:
        w = rng.choice([0, rng.random(), rng.random(), .999])
        plan.append([t, {'fn': [u, v, w]}])
        if rng.chance(.2):
            v = rng.random()
    for _ in range(rng.choice([0, 0, 1, 4])):
        plan.append([rng.randrange(n), rng.choice([1, 2, 5])])
    rng.shuffle(order)
    return plan + [[t, {'frac': 2}] for t in order]


def _try(x):
    try:
        return lib.ev(x)
    except Exception:
        return None


def thread(xs, refs, built):
    '''what a thread does: evaluate call expressions; or, with their arguments
    built beforehand, nothing but the calls'''
    if not built:
        return lambda: [lib.outcome(x, refs) for x in xs]
    calls_ = []
    for x in xs:
        try:
            calls_.append(lib.prepare(x, refs))
        except Exception as e:
            calls_.append(lib.exc(e, True))

    def body():
        out = []
        for c in calls_:
            if isinstance(c, list):
                out.append(c)
                continue
            try:
                out.append(('v', c[0](*c[1], **c[2])))
            except Exception as e:
                out.append(lib.exc(e, True))
        return out
    return body


def dump(out, built):
    'results of a thread as JSON'
    if not built or (out and out[0] == 'harness'):
        return out
    return [['v', lib.canon(r[1])] if isinstance(r, tuple) else r
            for r in out]


def execute(sc, res):
    fresh = Fresh(alone)
    net, shared, mode = sc['net'], sc['shared'], sc['mode']
    built = sc.get('built', False)
    want = [fresh.run([net, shared, xs, mode, built])
            for xs in sc['threads']]
    if any(w[0][0] == 'harness' for w in want):
        res.probe('skipped_too_long')       # even alone
        fresh.stop()
        return
    lib.select(net)
    klass = lib.riemann.network
    refs = {i: _try(x) for i, x in enumerate(shared)}
    before = lib.canon([refs[i] for i in sorted(refs)])
    plan = []
    ran = [0] * len(want)
    for t, q in sc['plan']:
        if t >= len(want):
            continue
        if isinstance(q, dict) and 'fn' in q:
            q = max(1, 1 + trace.place(q['fn'], want[t][2]) - ran[t])
        elif isinstance(q, dict):
            q = 1 + int(q['frac'] * want[t][1])
        ran[t] += q
        plan.append([t, q])
    s = trace.Scheduler(
        [thread(xs, refs, built) for xs in sc['threads']], plan, mode,
        10 * sum(w[1] for w in want) + 1_000_000)
    try:
        got = [dump(r, built) for r in s.run()]
    except trace.Deadlock:
        res.fail('deadlock', switches=s.switches[-5:])
        return
    res.events += s.steps
    res.real_calls += sum(len(x) for x in sc['threads'])
    res.fault('preemption_at_' + mode, s.preempted)
    res.probe('switches', len(s.switches))
    if shared:
        res.probe('runs_sharing_objects')
    for t, xs in enumerate(sc['threads']):
        for i, x in enumerate(xs):
            g = got[t][i] if got[t][0] != 'harness' else got[t]
            w = want[t][0][i]
            res.ev(t, i, session.name_of(x), g[0] if g[0] == 'v' else g[:2])
            if g != w:
                res.fail('differs from running alone', thread=t, call=i,
                         name=session.name_of(x), net=net, got=g, alone=w)
    res.log.append(s.switches[:400])
    if lib.canon([refs[i] for i in sorted(refs)]) != before:
        res.fail('shared object changed', net=net)
    if lib.riemann.network is not klass:
        res.fail('selected network changed', net=net)
    res.state(s.switches, [session.name_of(x) for xs in sc['threads']
                           for x in xs])
    res.nontrivial = s.preempted > 0
    fresh.stop()
