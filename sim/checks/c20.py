'''C20: time-locked transactions are released by the clock, never before.

Wallets post transactions with absolute lock times to nodes over a network
that delays, duplicates and loses them. Every node has its own view of the
chain height and of the time: chains grow, reorganize (the height goes back),
nodes fall behind and jump ahead, clocks run skewed, jump forward and are set
back. A node keeps the bytes it received, asks the library about every
transaction in its pool at every tick with its own height and time, and
releases the final ones. Nodes crash (between calls and inside one) and
restart from their stored bytes; wallets replace lock times by copy().
Oracle: every verdict is what the lock time says at that height and time;
nothing is released by a node at a height and time before its lock; once
faults stop, every node releases everything whose lock has passed.
'''
from sim import edits, gen, lib, model, trace

ID = 'C20'
RUNS = dict(quick=6000, thorough=400000)
COMPONENTS = dict(real=['riemann: check_final, decoders, constructors, copy'],
                  stub=['network', 'chain height and clock of every node',
                        'storage of nodes'])
NONTRIVIAL = 'some transaction was asked about before and after its lock ' \
    'passed, with a clock or height that also went back'
STATES = 'digest of (kind of lock, distance to it, forms of the call)'

EDGE = 500000000


class Stop(BaseException):
    pass


def lock_near(rng, height, now):
    v = rng.pick([
        (4, height + rng.choice([-2, -1, 0, 1, 2, 3, 10])),
        (4, now + rng.choice([-3600, -1, 0, 1, 2, 60, 600, 3600])),
        (1, EDGE + rng.choice([-1, 0, 1])), (1, 0), (.5, 1),
        (.5, 2 ** 32 - 1), (.5, 2 ** 31 + rng.choice([-1, 0, 1])),
        (.7, rng.getrandbits(32)),
        (.7, rng.choice([255, 256, 65535, 65536, 2 ** 24 - 1, 2 ** 24]))])
    return max(0, min(2 ** 32 - 1, v)).to_bytes(4, 'little').hex()


def gen_(rng, tier):
    height = rng.choice([0, 3, 250, 500, 65530, 560000, 16777210])
    now = rng.choice([EDGE + 5, 1231006505, 1550000000, 2 ** 31 - 30])
    nets, ms = [], []
    for _ in range(rng.randint(1, 3)):
        f = gen.fam(rng)
        net = gen.net_for(rng, f)
        m = gen.tx(rng, net, ins=rng.randint(1, 2), outs=rng.randint(1, 2))
        m['lock'] = lock_near(rng, height, now)
        if rng.chance(.3):
            for i in m['ins']:
                i['seq'] = rng.choice(['ffffffff', '00000000', 'feffffff'])
        nets.append(net)
        ms.append(m)
    steps = []
    for _ in range(rng.randint(6, 30)):
        k = rng.pick([(4, 'grow'), (4, 'time'), (1.5, 'reorg'),
                      (1.5, 'back'), (6, 'tick'), (3, 'deliver'),
                      (1, 'crash'), (1.5, 'relock'), (1, 'stall'),
                      (1, 'skew'), (1.5, 'jump')])
        st = dict(do=k, node=rng.randrange(3), tx=rng.randrange(3))
        if k in ('grow', 'reorg'):
            st['n'] = rng.choice([1, 1, 2, 3, 10])
        elif k in ('time', 'back'):
            st['n'] = rng.choice([1, 1, 2, 60, 600, 3600])
        elif k == 'skew':
            st['n'] = rng.choice([-7200, -1, 0, 1, 7200])
        elif k == 'jump':
            st['to'] = lock_near(rng, height, now)
            st['d'] = rng.choice([-1, 0, 1])
            st['what'] = rng.choice(['height', 'time', 'own'])
        elif k == 'tick':
            st['form'] = rng.choice(['pos', 'kw', 'kw', 'swap', 'h', 't',
                                     'none'])
            if rng.chance(.12):
                st['int'] = rng.random()
        elif k == 'relock':
            st['lock'] = lock_near(rng, height, now)
        steps.append(st)
    return dict(nets=nets, ms=ms, height=height, now=now, steps=steps)


def final(m, height, now):
    lock = int.from_bytes(bytes.fromhex(m['lock']), 'little')
    return lock <= (now if lock >= EDGE else height)


def execute(sc, res):
    std = lib.riemann.networks.standard
    nets, ms = sc['nets'], list(sc['ms'])
    n = 3
    height, now = sc['height'], sc['now']
    behind, skew = [0] * n, [0] * n
    stalled = [None] * n
    disk = [dict() for _ in range(n)]       # tx index -> record last received
    pool = [dict() for _ in range(n)]       # tx index -> object (volatile)
    seen = {}
    back = 0

    def view(k):
        if stalled[k]:
            return stalled[k]
        return max(0, height - behind[k]), max(0, now + skew[k])

    def load(k, t):
        m = disk[k][t]
        if m['fam'] == 'dcr':
            return edits.build_from(m)
        return lib.cls(m['fam']).from_bytes(model.ser(m))

    def ask(k, t, form, st):
        'one call; judges the verdict'
        nonlocal back
        m = disk[k][t]
        lib.select(nets[t])
        if t not in pool[k]:
            pool[k][t] = load(k, t)
        o = pool[k][t]
        h, w = view(k)
        a, kw = (o,), dict(best_height=h, best_timestamp=w)
        if form == 'pos':
            a, kw = (o, h, w), {}
        elif form == 'swap':
            kw = dict(best_timestamp=w, best_height=h)
        elif form == 'h':
            kw, w = dict(best_height=h), 0
        elif form == 't':
            kw, h = dict(best_timestamp=w), 0
        elif form == 'none':
            kw, h, w = {}, 0, 0
        res.real_calls += 1
        if 'int' in st:
            def act():
                raise Stop()
            inj = trace.Injector(int(st['int'] * 8), act, 'line',
                                 skip_critical=True)
            try:
                inj.run(lambda: std.check_final(*a, **kw))
            except Stop:
                res.fault('call_interrupted')
        try:
            v = std.check_final(*a, **kw)
        except Exception as e:
            res.fail('no verdict', net=nets[t], lock=m['lock'], height=h,
                     time=w, form=form, error=lib.exc(e, True))
            return None
        want = final(m, h, w)
        res.ev('ask', k, t, form, m['lock'], h, w, bool(v))
        lock = int.from_bytes(bytes.fromhex(m['lock']), 'little')
        d = lock - (w if lock >= EDGE else h)
        res.state(m['fam'], lock >= EDGE, max(-3, min(3, d)), form)
        if bool(v) != want or not isinstance(v, (bool, int)):
            res.fail('released before its lock' if v else
                     'held after its lock has passed', net=nets[t],
                     lock=m['lock'], height=h, time=w, form=form, got=v)
        if o.to_bytes() != model.ser(m):
            res.fail('the question changed the transaction', net=nets[t])
        seen.setdefault((k, t), set()).add(want)
        return v

    for st in sc['steps']:
        k, t, do = st['node'] % n, st['tx'] % len(ms), st['do']
        res.simtime += 60
        if do == 'grow':
            height += st['n']
        elif do == 'reorg':
            height = max(0, height - st['n'])
            back += 1
            res.fault('reorg')
        elif do == 'time':
            now += st['n']
        elif do == 'back':
            now = max(0, now - st['n'])
            back += 1
            res.fault('clock_set_back')
        elif do == 'skew':
            skew[k] = st['n']
            res.fault('clock_skew')
        elif do == 'jump':
            to = (int.from_bytes(bytes.fromhex(
                ms[t]['lock'] if st['what'] == 'own' else st['to']),
                'little') + st['d'])
            to = max(0, to)
            if to >= EDGE:
                now = to
            else:
                height = to
            res.fault('clock_jump')
        elif do == 'stall':
            if stalled[k]:
                stalled[k] = None
            else:
                stalled[k] = view(k)
                res.fault('node_stalled')
        elif do == 'deliver':
            disk[k][t] = ms[t]
            pool[k].pop(t, None)
        elif do == 'crash':
            pool[k] = {}
            res.fault('crash_restart')
        elif do == 'relock':
            lib.select(nets[t])
            m2 = dict(ms[t], lock=st['lock'])
            o = edits.build_from(ms[t])
            c = o.copy(lock_time=bytes.fromhex(st['lock']))
            res.real_calls += 2
            ms[t] = m2
            if c.to_bytes() != model.ser(m2):
                res.fail('lock time not replaced', net=nets[t],
                         lock=st['lock'])
            # the wallet's own node sees the new version as an object
            disk[0][t] = m2
            pool[0][t] = c
        elif do == 'tick':
            for x in sorted(disk[k]):
                ask(k, x, st['form'], st)
        if res.violations:
            break
    # faults over: everything arrives, clocks are right, all locks pass
    if not res.violations:
        for k in range(n):
            stalled[k], skew[k], behind[k] = None, 0, 0
        for t, m in enumerate(ms):
            lock = int.from_bytes(bytes.fromhex(m['lock']), 'little')
            for k in range(n):
                disk[k][t] = m
                pool[k].pop(t, None)
            if lock >= EDGE:
                now = max(now, lock)
            else:
                height = max(height, lock)
        for k in range(n):
            for t in range(len(ms)):
                if ask(k, t, 'kw', {}) is not None and res.violations:
                    break
    res.nontrivial = bool(back and any(len(v) > 1 for v in seen.values()))
