'''C01: built transactions and their parts never change.

A session builds and decodes objects out of mutable buffers and lists, then a
seeded schedule of hostile steps follows: overwriting those buffers and lists,
writing to everything the objects returned, assigning, deleting and extending
in place, using the objects in further calls (also failing ones, calls
interrupted half way, calls running out of memory), re-using their parts in
other objects, selecting other networks. Invariant after every step: the
canonical dump (bytes, every public field, ids, digests) of every live object
is what it was when the object was made.
'''
from sim import calls, gen, lib, model, session, trace
from sim.gen import rb

ID = 'C01'
RUNS = dict(quick=8000, thorough=400000)
COMPONENTS = dict(
    real=['all transaction classes, builders, decoders of riemann'],
    stub=['delivery of interruptions and allocation failures'])
NONTRIVIAL = 'objects were built and hostile steps made on them'
STATES = 'digest of (class of object, hostile step, outcome)'


def gen_(rng, tier):
    nets = [gen.any_net(rng)]
    if rng.chance(.3):
        nets = [rng.choice(gen.SEGWIT_NETS)]
    while rng.chance(.4):
        nets.append(gen.any_net(rng))
    pool = calls.Pool(rng, nets, big=rng.chance(.03))
    c = calls.Calls(rng, pool, mut=rng.choice([0, .5, .9, 1]),
                    seqs=rng.choice(['l', 'l', 'lt']))
    steps, slots = [], []

    def make():
        net = rng.choice(nets)
        m = c.mtx(net)
        k = rng.randrange(7)
        x = None
        if k in (0, 1, 2):
            x = c.build().tx(m)
        elif k == 3:
            x = c.c_part(net)
        elif k == 4:
            x = c.f(calls.CLASS_PATH[m['fam']] + '.from_bytes',
                    c.b(model.ser(m).hex()))
        elif k == 5:
            kind = rng.choice(gen.PART_KINDS[m['fam']])
            x = getattr(c.build(), kind)(c.part_of(m, kind))
        else:
            x = rng.choice([c.c_builder, c.c_simple, c.c_varint])(net)
        if 'on' in x and slots and rng.chance(.5):
            # a copy, or the like, of something that is already there
            x = dict(x, on={'r': rng.choice(slots)})
        st = dict(do='make', net=net, x=x)
        if x.get('f') in ('tx.Tx', 'decred.DecredTx', 'sprout.SproutTx',
                          'overwinter.OverwinterTx', 'sapling.SaplingTx'):
            name, a, kw = c.sighash_args(m, net)
            st['probe'] = [dict(m=name, a=a, k=kw), None]
        slots.append(len(steps))
        steps.append(st)

    make()
    for _ in range(rng.randint(6, 25)):
        if rng.chance(.12):
            make()
            continue
        slot = rng.choice(slots)
        k = rng.randrange(9)
        path = [rng.randrange(8) for _ in range(rng.choice([0, 0, 1, 1, 2,
                                                            3, 4]))]
        at = rng.randrange(40)
        if k == 0:
            st = dict(do='buffers', slot=slot)
        elif k == 1:
            st = dict(do='set', slot=slot, path=path, attr=at,
                      value=rng.choice([None, {'h': rb(rng, 4).hex()},
                                        {'ba': rb(rng, 4).hex()},
                                        {'l': []}, 5]))
        elif k == 2:
            st = dict(do='del', slot=slot, path=path, attr=at)
        elif k == 3:
            st = dict(do='iadd', slot=slot, path=path,
                      value=rng.choice([{'h': rb(rng, 3).hex()},
                                        {'ba': rb(rng, 3).hex()},
                                        {'bd': rb(rng, 3).hex()},
                                        {'r': slot}]))
        elif k in (4, 5):
            st = dict(do='returned', slot=slot, path=path)
        elif k == 6:
            st = dict(do='net', net=gen.any_net(rng))
        else:
            net = rng.choice(nets)
            m = c.mtx(net)
            x = c.method({'r': slot}, m, net) if rng.chance(.5) else \
                dict(zip(('m', 'a', 'k'), c.sighash_args(m, net)),
                     on={'r': slot})
            if 'r' not in x['on']:
                x = dict(x, on={'r': slot})
            st = dict(do='call', net=net, x=x)
            if rng.chance(.4):
                st['at'] = rng.random()
                st['how'] = rng.choice(['interrupt', 'memory', 'hash'])
                st['mode'] = rng.choice(['line', 'opcode'])
        steps.append(st)
    return dict(steps=steps)


def child(o, path):
    'follow a path of choices down to some part of an object'
    for p in path:
        kids = []
        for n in lib.public(o) if isinstance(o, lib.shared.ByteData) else ():
            v = lib.attr(o, n)
            if isinstance(v, lib.shared.ByteData):
                kids.append(v)
            elif isinstance(v, (list, tuple)):
                kids += [y for y in v if isinstance(y, lib.shared.ByteData)]
        if not kids:
            return o
        o = kids[p % len(kids)]
    return o


ZERO_ARG = ['to_bytes', 'hex', 'copy', '__iter__', '__repr__', 'no_witness',
            'script', 'prefix', 'witness', 'script_code', 'items']


def execute(sc, res):
    live, dumps, bufs, births, probes = {}, {}, {}, {}, {}
    hostile = 0
    lib.COLLECT[0] = True
    current = None

    def use(net):
        nonlocal current
        lib.select(net)
        current = net

    def digest(slot):
        p = probes[slot]
        keep = current
        lib.select(births[slot])
        out = lib.outcome(dict(p, on={'r': slot}), live)
        if keep:
            lib.select(keep)
        return out

    probe_at = {}
    for i, st in enumerate(sc['steps']):
        do = st['do']
        if do != 'make' and do != 'net' and do != 'call' \
                and st['slot'] not in live:
            continue
        what = None
        if do == 'make':
            if any(n not in live for n in session.ref_slots(st['x'])):
                continue
            use(st['net'])
            del lib.MADE[:]
            try:
                o = lib.ev(st['x'], live)
            except Exception as e:
                res.ev(i, do, lib.exc(e)[1])
                continue
            if not isinstance(o, lib.shared.ByteData):
                continue
            if st['x'].get('f') == 'shared.ByteData.from_bytes':
                # (a buffer, meant to grow)
                continue
            live[i], births[i] = o, st['net']
            bufs[i] = list(lib.MADE)
            dumps[i] = lib.canon(o)
            res.real_calls += 1
            if 'probe' in st:
                probes[i] = st['probe'][0]
                probe_at[i] = digest(i)
            what = type(o).__name__
        elif do == 'net':
            use(st['net'])
            res.fault('network_switch')
            what = 'net'
        elif do == 'buffers':
            n = 0
            for b in bufs[st['slot']]:
                if isinstance(b, lib.shared.ByteData):
                    b += b'\x01'
                    n += 1
                else:
                    n += session.scribble(b)
            bufs[st['slot']] = [b for b in bufs[st['slot']]
                                if not isinstance(b, list)]
            res.fault('buffers_overwritten', n)
            hostile += bool(n)
            what = bool(n)
        elif do == 'call':
            if any(n not in live for n in session.ref_slots(st['x'])):
                continue
            use(st['net'])
            what = a_call(st, live, res)
            hostile += 1
        else:
            o = child(live[st['slot']], st.get('path', []))
            what = attack(st, o, live, res)
            hostile += 1
        res.ev(i, do, what)
        if 'slot' in st:
            res.state(type(live[st['slot']]).__name__, do, what,
                      st.get('attr'), st.get('path'))
        for s in live:
            try:
                d = lib.canon(live[s])
            except Exception as e:
                d = lib.exc(e)
            if d != dumps[s]:
                res.fail('object changed', step=i, do=do, slot=s,
                         kind=type(live[s]).__name__, made=births[s],
                         before=dumps[s], after=d)
                break
        if res.violations:
            return
    for s in probes:
        if s in live:
            d = digest(s)
            if d != probe_at[s]:
                res.fail('signing digest changed', slot=s, made=births[s],
                         kind=type(live[s]).__name__, before=probe_at[s],
                         after=d)
    res.nontrivial = bool(live) and hostile > 2


def attack(st, o, live, res):
    do = st['do']
    names = lib.public(o) + ['extra', '_bytes', 'tx_id', 'hex']
    name = names[st['attr'] % len(names)] if 'attr' in st else None
    try:
        if do == 'set':
            if name.startswith('_'):
                name = 'extra'
            res.fault('attribute_assigned')
            setattr(o, name, lib.ev(st['value']))
            return 'set'
        if do == 'del':
            if name.startswith('_'):
                name = 'extra'
            res.fault('attribute_deleted')
            delattr(o, name)
            return 'deleted'
        if do == 'iadd':
            res.fault('extended_in_place')
            v = lib.ev(st['value'], live)
            o += v
            return 'extended'
        if do == 'returned':
            n = 0
            for a in lib.public(o):
                n += session.scribble(lib.attr(o, a))
            for m in ZERO_ARG:
                f = getattr(o, m, None)
                if callable(f):
                    try:
                        v = f()
                    except Exception:
                        continue
                    n += session.scribble(v)
                elif f is not None:
                    n += session.scribble(f)
            try:
                n += session.scribble(o[:])
            except Exception:
                pass
            res.fault('returned_values_overwritten', n)
            return n
    except Exception as e:
        return lib.exc(e)[1]


def a_call(st, live, res):
    x = st['x']
    res.real_calls += 1
    try:
        fn, a, kw = lib.prepare(x, live)
    except Exception as e:
        return lib.exc(e)[1]
    if 'at' not in st:
        try:
            v = fn(*a, **kw)
        except Exception as e:
            res.fault('failing_call')
            return lib.exc(e)[1]
        session.scribble(v)
        return 'v'

    # how long it takes is found out on the way: aim at a step on a
    # logarithmic scale
    k = int(3 ** (st['at'] * 7)) - 1
    if st['how'] == 'hash':
        lib.HashFault.arm(int(st['at'] * 6),
                          lambda n: MemoryError('simulated'))
        try:
            session.scribble(fn(*a, **kw))
            out = 'v'
        except Exception as e:
            out = lib.exc(e)[1]
        res.fault('hash_failure', lib.HashFault.fired)
        lib.HashFault.disarm()
        return out
    E = trace.Interrupt if st['how'] == 'interrupt' else MemoryError

    def act():
        raise E('simulated')
    inj = trace.Injector(k, act, st['mode'], skip_critical=True)
    try:
        v = inj.run(lambda: fn(*a, **kw))
        session.scribble(v)
        out = 'v'
    except (Exception, trace.Interrupt) as e:
        out = type(e).__name__
    if inj.fired:
        res.fault(st['how'] + '_in_call')
    return out
