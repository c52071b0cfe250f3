'''C06: stored transactions survive crash and restart intact.

Writer and reader processes run the real library; the simulator owns the
storage (appended records, lost and torn when power fails before a sync) and
the messages between them, and crashes processes between commands and at
chosen steps inside building, encoding and decoding. Every item is built,
stored, read back, re-encoded and passed on by several processes. Oracle: each
reader's object has the bytes, fields, ids, fee and digests of the writer's,
and those an independent model of the formats gives.
'''
from sim import gen, lib, model, wire
from sim.node import Crashed, Node

ID = 'C06'
RUNS = dict(quick=6000, thorough=300000)
COMPONENTS = dict(
    real=['all transaction and part classes of riemann, in real processes'],
    stub=['storage (append-only records with checksums, unsynced data lost '
          'or torn at power failure)', 'message transport'])
NONTRIVIAL = 'an item crossed at least two process boundaries'
STATES = 'digest of (kind, vector lengths, step, crash)'
PARTS = ['outpoint', 'txin', 'txout', 'item', 'wit', 'doutpoint', 'dtxin',
         'dtxout', 'sproof', 'sjs', 'gproof', 'gjs', 'ss', 'so', 'varint']


def gen_(rng, tier):
    items = []
    fam = rng.choice([None, None, 'btc', 'spr', 'ow', 'sap'])
    for _ in range(rng.randint(1, 4)):
        f = fam or rng.choice(['btc', 'btc', 'spr', 'ow', 'sap', 'dcr'])
        net = gen.net_for(rng, f)
        if f == 'dcr' or rng.chance(.3):
            k = rng.choice([p for p in gen.PART_KINDS[f] if p != 'dwit']
                           + ['varint'])
            if k == 'varint':
                v = rng.choice([0, 1, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0xffff,
                                0x10000, 0xffffffff, 2 ** 32, 2 ** 64 - 1,
                                rng.getrandbits(rng.randint(1, 64))])
            else:
                v = gen.part(rng, k)
            it = dict(net=net, kind=k, v=v)
        else:
            m = gen.tx(rng, net, big=rng.chance(.12))
            it = dict(net=net, kind=f, v=m, pr=wire.probes(rng, m),
                      values=[rng.randint(0, 21 * 10 ** 14)
                              for _ in m['ins']])
        it['mut'] = rng.chance(.3)
        items.append(it)
    steps = []
    for _ in range(rng.randint(4, 16)):
        k = rng.pick([(4, 'put'), (5, 'get'), (1.5, 'crash'), (1.5, 'sync'),
                      (1, 'power'), (2, 'relay'), (1, 'stream'), (1, 'net')])
        st = dict(do=k, node=rng.randrange(3), item=rng.randrange(len(items)),
                  dt=rng.randint(1, 50))
        if k in ('put', 'get', 'relay', 'stream'):
            st['via'] = rng.choice(['bytes', 'bytearray', 'hex'])
            if rng.chance(.25):
                st['crash'] = rng.random()
                st['mode'] = rng.choice(['line', 'opcode'])
        if k == 'relay':
            st['to'] = rng.randrange(3)
        if k == 'power':
            st['tear'] = rng.random()
        if k == 'net':
            st['net'] = gen.any_net(rng)
        steps.append(st)
    return dict(items=items, steps=steps)


def build(it):
    b = lib.Build((lambda: True) if it['mut'] else None)
    k, v = it['kind'], it['v']
    if k == 'varint':
        return lib.shared.VarInt(v)
    return lib.ev(b.tx(v) if k in wire.TXK else getattr(b, k)(v))


def facts(it, o):
    return wire.facts(o, it['kind'], it['v']['fam'] if it['kind'] in wire.TXK
                      else None, it['net'], it.get('pr', ()),
                      it.get('values'))


def handler(state, cmd):
    op = cmd['op']
    if op == 'net':
        lib.select(cmd['net'])
        return None
    it = cmd['it']
    lib.select(it['net'])
    try:
        if op == 'build':
            o = build(it)
            state[cmd['key']] = o
            return ['v', facts(it, o)]
        if op == 'decode':
            o = wire.decode(it['kind'], bytes.fromhex(cmd['raw']), cmd['via'])
            d = facts(it, o)
            old = state.get(cmd['key'])
            if old is not None and old.to_bytes() == o.to_bytes():
                d['equal'] = bool(o == old)
            if d['raw'] == cmd['raw']:
                state[cmd['key']] = o
            return ['v', d]
        if op == 'stream':
            out, raw, at = [], bytes.fromhex(cmd['raw']), 0
            while at < len(raw) and len(out) < 10:
                o = wire.decode(it['kind'], raw[at:], cmd['via'])
                out.append(o.to_bytes().hex())
                at += len(o)
            return ['v', out]
    except Exception as e:
        return lib.exc(e, True)


class Disk:
    'append-only; what was not synced may be lost or torn'

    def __init__(self):
        self.durable, self.cache = {}, []

    def put(self, key, raw):
        self.cache.append((key, raw))

    def sync(self):
        for k, r in self.cache:
            self.durable[k] = r
        self.cache = []

    def power(self, tear):
        'a prefix of the cache survives; the next record is torn and dropped'
        n = int(tear * (len(self.cache) + 1))
        for k, r in self.cache[:n]:
            self.durable[k] = r
        lost = len(self.cache) - n
        self.cache = []
        return lost

    def get(self, key):
        for k, r in reversed(self.cache):
            if k == key:
                return r
        return self.durable.get(key)


def expect_raw(it):
    k, v = it['kind'], it['v']
    if k == 'varint':
        return model.varint(v)
    return model.ser(v) if k in wire.TXK else wire.part_raw(k, v)


def execute(sc, res):
    items = sc['items']
    nodes = [Node(handler) for _ in range(3)]
    disk = Disk()
    origin = {}
    hops = {}

    def call(st, cmd):
        n = nodes[st['node']]
        k = None
        if 'crash' in st:
            k = int(3 ** (st['crash'] * 8)) - 1
        res.real_calls += 1
        try:
            v = n.call(cmd, k, st.get('mode', 'line'))
        except Crashed:
            res.fault('crash_inside_' + cmd['op'])
            n.start()
            return None
        hops[cmd.get('i')] = hops.get(cmd.get('i'), 0) + 1
        return v

    def check(i, v, what, where):
        it = items[i]
        if v[0] != 'v':
            res.fail('refused', item=it['kind'], net=it['net'], step=where,
                     what=what, error=v)
            return False
        d = v[1]
        eq = d.pop('equal', True)
        if not eq:
            res.fail('equal bytes, unequal objects', item=it['kind'],
                     net=it['net'], step=where)
        raw = expect_raw(it)
        if it['kind'] in wire.TXK:
            bad = wire.check_facts(d, it['v'], it['kind'], it['net'],
                                   it['pr'], it['values'])
        else:
            bad = []
            if d['raw'] != raw.hex() or d['len'] != len(raw) \
                    or d['hex'] != raw.hex():
                bad = [dict(got=d['raw'], want=raw.hex(), len=d['len'])]
            if d['part'] != wire.part_want(it['kind'], it['v']):
                bad.append(dict(got=d['part'], want=it['v']))
        if bad:
            res.fail('not what was written', item=it['kind'], net=it['net'],
                     step=where, what=what, wrong=bad[:2])
        if i in origin and d != origin[i]:
            diff = [k for k in d if d[k] != origin[i].get(k)]
            res.fail('reader differs from writer', item=it['kind'],
                     net=it['net'], step=where, what=what, facts=diff,
                     got=[d[k] for k in diff][:2],
                     want=[origin[i].get(k) for k in diff][:2])
        origin.setdefault(i, d)
        return not res.violations

    def put(i, st, where):
        v = call(st, dict(op='build', it=items[i], key=i, i=i))
        if v is None:
            return
        if check(i, v, 'build', where):
            disk.put(i, v[1]['raw'])

    def get(i, st, where):
        raw = disk.get(i)
        if raw is None:
            return None
        v = call(st, dict(op='decode', it=items[i], key=i, raw=raw,
                          via=st['via'], i=i))
        if v is None:
            return None
        check(i, v, 'decode', where)
        return v

    for s, st in enumerate(sc['steps']):
        do, i = st['do'], st['item']
        if i >= len(items):
            continue
        it = items[i]
        res.simtime += st['dt']
        shape = [it['kind']] + ([len(it['v'].get(k) or ()) for k in
                                 ('ins', 'outs', 'wits', 'js', 'ss', 'so')]
                                if it['kind'] in wire.TXK else [])
        res.state(shape, do, 'crash' in st)
        res.ev(s, do, i, it['kind'], it['net'], st['node'], 'crash' in st)
        if do == 'put':
            put(i, st, s)
        elif do == 'get':
            get(i, st, s)
        elif do == 'relay':
            v = get(i, st, s)
            if v is not None and not res.violations:
                # the other node gets what this one re-encoded
                w = call(dict(st, node=st['to']), dict(
                    op='decode', it=it, key=i, raw=v[1]['raw'],
                    via=st['via'], i=i))
                if w is not None:
                    check(i, w, 'relay', s)
        elif do == 'crash':
            nodes[st['node']].kill()
            nodes[st['node']].start()
            res.fault('crash_between_commands')
        elif do == 'sync':
            disk.sync()
        elif do == 'power':
            res.fault('power_failure')
            res.fault('lost_or_torn_record', disk.power(st['tear']))
            for n in nodes:
                n.kill()
                n.start()
        elif do == 'net':
            call(dict(node=st['node']), dict(op='net', net=st['net']))
            res.fault('other_network_in_between')
        elif do == 'stream':
            same = [j for j, x in enumerate(items)
                    if x['kind'] == it['kind'] and x['net'] == it['net']]
            raws = [expect_raw(items[j]) for j in same] * 2
            if it['kind'] in wire.TXK and any(
                    not whole(it['kind'], r, b''.join(raws[k + 1:]))
                    for k, r in enumerate(raws)):
                continue        # unsigned forms cannot be followed by data
            v = call(st, dict(op='stream', it=it, via=st['via'], i=i,
                              raw=b''.join(raws).hex()))
            if v is not None and v != ['v', [r.hex() for r in raws[:10]]]:
                res.fail('stream not split as written', item=it['kind'],
                         net=it['net'], step=s, got=v,
                         want=[r.hex() for r in raws])
        if res.violations:
            break
    # faults over: everything gets written, synced and read everywhere
    if not res.violations:
        for i in range(len(items)):
            st = dict(node=i % 3, via='bytes')
            if disk.durable.get(i) is None:
                put(i, st, 'end')
                disk.sync()
            for n in range(3):
                if not res.violations:
                    if get(i, dict(node=n, via=('bytes', 'hex', 'bytearray')
                                   [(i + n) % 3]), 'end') is None:
                        res.fail('item lost', item=i)
            res.ev('end', i, origin.get(i, {}).get('raw', '')[:40])
            if res.violations:
                break
    for n in nodes:
        n.stop()
    res.nontrivial = any(v >= 2 for v in hops.values())


def whole(kind, raw, rest):
    try:
        return model.parse(kind, raw + rest)[1] == len(raw)
    except model.Bad:
        return False
