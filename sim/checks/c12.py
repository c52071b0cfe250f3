'''C12: edits replace exactly the fields they name.

Replica processes hold a transaction each and receive edits (field changes
through copy(), additions and removals) over a network that reorders,
duplicates and loses them; replicas crash between edits and at chosen steps
inside an edit and restart from the bytes they last stored (Decred, which has
no decoder: from the stored fields). Edits carry an epoch; those of one epoch
touch different fields and are applied in the order they happen to arrive.
Oracle: after every edit the object has exactly the fields, bytes and ids of a
plain record of fields with the same edits; every part copied has the named
attributes replaced and all others kept; originals are untouched; in the end
all replicas are equal.
'''
from sim import edits, gen, lib, model
from sim.node import Crashed, Node

ID = 'C12'
RUNS = dict(quick=8000, thorough=300000)
COMPONENTS = dict(
    real=['constructors, copy(), decoders and encoders of riemann, in real '
          'processes'],
    stub=['edit transport', 'storage of replicas'])
NONTRIVIAL = 'at least 4 edits were applied and replicas applied them in ' \
    'different orders or crashed'
STATES = 'digest of (family, edit kind, named fields, epoch position)'


def gen_(rng, tier):
    f = rng.choice(['btc', 'btc', 'dcr', 'spr', 'ow', 'sap'])
    net = gen.net_for(rng, f)
    m = gen.tx(rng, net)
    base = m
    eds, epoch = [], 0
    for _ in range(rng.randint(1, 4)):
        taken = set()
        for _ in range(rng.pick([(2, 1), (3, 2), (3, 4), (1, 7)])):
            e = edits.edit(rng, m)
            p = edits.paths(e)
            if p is None:
                if taken:
                    continue
                e['ep'] = epoch
                eds.append(e)
                m = edits.apply(m, e)
                break
            if edits.clash(p, taken):
                continue
            taken |= p
            e['ep'] = epoch
            eds.append(e)
            m = edits.apply(m, e)
        epoch += 1
    nrep = rng.randint(2, 3)
    steps = []
    for k in range(nrep):
        for i in range(len(eds)):
            if rng.chance(.8):
                steps.append((eds[i]['ep'] + rng.random() * rng.choice(
                    [1, 1, 2.5]), dict(rep=k, ed=i)))
            if rng.chance(.15):
                steps.append((eds[i]['ep'] + rng.random() * 3,
                              dict(rep=k, ed=i)))
    steps.sort(key=lambda x: x[0])
    steps = [s for _, s in steps]
    for s in steps:
        if rng.chance(.1):
            s['crash'] = rng.random()
            s['mode'] = rng.choice(['line', 'opcode'])
    for _ in range(rng.pick([(3, 0), (2, 1), (1, 3)])):
        steps.insert(rng.randint(0, len(steps)),
                     dict(rep=rng.randrange(nrep), boot=1))
    for _ in range(rng.randint(0, 3)):
        steps.insert(rng.randint(0, len(steps)),
                     dict(rep=rng.randrange(nrep), store=1))
    if rng.chance(.5):
        steps.insert(rng.randint(0, len(steps)),
                     dict(rep=rng.randrange(nrep), probe=1,
                          mut=rng.chance(.3), pos=rng.chance(.3)))
    return dict(net=net, m=base, eds=eds, nrep=nrep, steps=steps)


def handler(state, cmd):
    op = cmd['op']
    lib.select(cmd['net'])
    fam = cmd['fam']
    wrong = []
    try:
        if op == 'init':
            if cmd.get('m'):
                o = edits.build_from(cmd['m'])
            else:
                o = lib.cls(fam).from_bytes(bytes.fromhex(cmd['raw']))
        elif op == 'edit':
            old = state['o']
            before = [lib.read(old, fam), old.to_bytes().hex()]
            o = edits.apply_lib(old, fam, cmd['e'], wrong)
            if [lib.read(old, fam), old.to_bytes().hex()] != before:
                wrong.append(['original changed'])
        elif op == 'probe':
            o = edits.plain(state['o'], fam, wrong)
            edits.all_singles(o, fam, wrong, cmd['e'])
            v = lib.shared.VarInt(cmd['n'], length=cmd['len'])
            w = v.copy()
            if (w.to_bytes(), w.number, len(w)) != (v.to_bytes(), v.number,
                                                    len(v)):
                wrong.append(['copy', 'varint', w.hex(), v.hex()])
        state['o'] = o
        return ['v', dict(read=lib.read(o, fam), raw=o.to_bytes().hex(),
                          len=len(o), ids=lib.got_ids(o), wrong=wrong[:3])]
    except Exception as e:
        return lib.exc(e, True)


def check_sane(m, eds):
    'the harness stops here on records no edit can be made of (shrinking)'
    assert model.sane(m), 'base'
    for e in eds:
        m = edits.apply(m, e)
        assert model.sane(m), e


def execute(sc, res):
    net, base, eds, nrep = sc['net'], sc['m'], sc['eds'], sc['nrep']
    fam = base['fam']
    check_sane(base, eds)
    nodes = [Node(handler) for _ in range(nrep)]
    live = [None] * nrep        # model record, applied ids; None: down
    disk = [(base, frozenset())] * nrep
    orders = [[] for _ in range(nrep)]
    epochs = {}
    for i, e in enumerate(eds):
        epochs.setdefault(e['ep'], []).append(i)
    order = sorted(epochs)
    crashed = 0

    def judge(v, m, rep, what):
        res.real_calls += 1
        if v[0] != 'v':
            res.fail('refused', rep=rep, what=what, net=net, error=v)
            return False
        d = v[1]
        raw = model.ser(m)
        want = dict(read=lib.want(m), raw=raw.hex(), len=len(raw),
                    ids=model.ids(m, net, raw), wrong=[])
        for k in want:
            if d[k] != want[k]:
                res.fail('not the record of fields' if k != 'wrong' else
                         'copy changes other fields', rep=rep, what=what,
                         net=net, fact=k, got=d[k], want=want[k])
                return False
        return True

    def up(rep):
        if live[rep] is None:
            m, done = disk[rep]
            cmd = dict(op='init', net=net, fam=fam)
            if fam == 'dcr' or (not done and rep % 2):
                cmd['m'] = m
            else:
                cmd['raw'] = model.ser(m).hex()
            v = nodes[rep].call(cmd)
            if not judge(v, m, rep, 'init'):
                return False
            live[rep] = (m, done)
            res.ev('up', rep, len(done))
        return True

    def current(done):
        for ep in order:
            if not done.issuperset(epochs[ep]):
                return ep
        return None

    def deliver(rep, i, st):
        nonlocal crashed
        if not up(rep):
            return
        m, done = live[rep]
        e = eds[i]
        if e['ep'] != current(done):
            if i not in done:
                res.fault('too_early_dropped')
            return              # too early (resent later) or long done
        if i in done:
            if edits.paths(e) is None:
                return
            res.fault('duplicate_applied')
        k = None
        if 'crash' in st:
            k = int(3 ** (st['crash'] * 8)) - 1
        try:
            v = nodes[rep].call(dict(op='edit', net=net, fam=fam, e=e), k,
                                st.get('mode', 'line'))
        except Crashed:
            res.fault('crash_inside_edit')
            crashed += 1
            nodes[rep].start()
            live[rep] = None
            res.ev('crash', rep, i)
            return
        m = edits.apply(m, e)
        if not judge(v, m, rep, e):
            return
        orders[rep].append(i)
        live[rep] = (m, done | {i})
        pt = sorted(map(str, edits.paths(e) or ()))
        res.state(fam, e['op'], pt, len(done))
        res.ev('edit', rep, i, e['op'], pt, model.ser(m).hex()[-60:])

    for st in sc['steps']:
        rep = st['rep']
        if rep >= nrep:
            continue
        res.simtime += 10
        if 'boot' in st:
            nodes[rep].kill()
            nodes[rep].start()
            live[rep] = None
            crashed += 1
            res.fault('crash_between_edits')
        elif 'store' in st:
            if live[rep]:
                disk[rep] = live[rep]
        elif 'probe' in st:
            if up(rep):
                m = live[rep][0]
                n = len(m['ins']) + 1000 * len(m['outs'])
                v = nodes[rep].call(dict(
                    op='probe', net=net, fam=fam, e=st, n=n % 65536,
                    len=(3, 5, 9)[n % 3]))
                judge(v, m, rep, 'probe')
        elif st['ed'] < len(eds):
            deliver(rep, st['ed'], st)
        if res.violations:
            break
    # faults over: what is missing gets delivered in epoch order
    if not res.violations:
        for rep in range(nrep):
            for ep in order:
                for i in epochs[ep]:
                    if not res.violations and up(rep) \
                            and i not in live[rep][1]:
                        deliver(rep, i, {})
        if not res.violations:
            ends = {model.ser(live[r][0]) for r in range(nrep)
                    if up(r)}
            if len(ends) > 1:
                raise AssertionError('scenario has conflicting edits')
            for r in range(nrep):
                if len(live[r][1]) != len(eds):
                    raise AssertionError('edits left over')
    for n in nodes:
        n.stop()
    seen = {tuple(o) for o in orders}
    res.nontrivial = (sum(len(o) for o in orders) >= 4
                      and (len(seen) > 1 or crashed > 0))
