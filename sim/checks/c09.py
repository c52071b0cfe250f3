'''C09: corrupted wire bytes are decoded faithfully or refused.

Transactions and parts of several chains arrive over links that corrupt them:
flipped, overwritten, zeroed, inserted, dropped, repeated and reordered pieces,
pieces of other messages, damaged counts and lengths (off by one, huge,
non-minimal), trailing data. One session decodes everything, switching
networks. Oracle: decoding raises, or the object re-encodes to a prefix of
what arrived and has the fields, vectors and ids that an independent strict
parser assigns to that prefix.
'''
from sim import gen, lib, model, wire
from sim.gen import rb

ID = 'C09'
RUNS = dict(quick=16000, thorough=500000)
COMPONENTS = dict(real=['all decoders of riemann'],
                  stub=['links (simulated corruption)'])
NONTRIVIAL = 'at least 10 corrupted messages arrived'
STATES = 'digest of (kind, corruption kinds, outcome)'

KINDS = ['flip', 'set', 'zero', 'insert', 'drop', 'repeat', 'swap', 'splice',
         'count', 'count', 'count', 'nonmin', 'nonmin', 'tail', 'cut', 'push',
         'flag', 'header', 'odd']


def item(rng, f):
    net = gen.net_for(rng, f)
    if f == 'dcr' or rng.chance(.35):
        k = rng.choice([p for p in gen.PART_KINDS[f] if p != 'dwit']
                       + ['varint'])
        v = gen.part(rng, k, long=rng.chance(.1)) if k != 'varint' \
            else rng.choice([0xfd, 0xffff, 0x10000, 0xffffffff, 2 ** 32, 7,
                             2 ** 64 - 1, 0xfc])
    else:
        k, v = f, gen.tx(rng, net, big=rng.chance(.04),
                         long=rng.chance(.05))
    return dict(net=net, kind=k, v=v)


def gen_(rng, tier):
    fam = rng.choice([None, 'btc', 'btc', 'spr', 'ow', 'sap'])
    items = [item(rng, fam or rng.choice(['btc', 'btc', 'spr', 'ow', 'sap',
                                          'dcr']))
             for _ in range(rng.randint(1, 4))]
    some = [rng.choice(KINDS) for _ in range(rng.randint(1, 4))]
    msgs = []
    for _ in range(rng.randint(15, 60)):
        i = rng.randrange(len(items))
        ed = []
        for _ in range(rng.pick([(6, 1), (2, 2), (1, 4)])):
            k = rng.choice(some) if rng.chance(.7) else rng.choice(KINDS)
            e = [k, rng.random(), rng.random()]
            if k == 'count':
                e.append(rng.choice([-1, 1, 1, 2, -2, 10, 200]))
            elif k in ('insert', 'tail', 'set'):
                e.append(rb(rng, rng.choice([1, 1, 2, 4, 32, 36, 100])).hex())
            elif k == 'nonmin':
                e.append(rng.choice([3, 3, 5, 9]))
            elif k == 'splice':
                e.append(rng.randrange(len(items)))
            elif k == 'push':
                e.append(rng.choice(['4c00', '4c01aa', '4d0000', '4d0100bb',
                                     '4e00000000', '4c', '4d01', '60', '01',
                                     '4f', '0100', '0105', '00', '4e01000000',
                                     '4cff', '6a', '61']))
            ed.append(e)
        m = dict(item=i, edits=ed, via=rng.choice(['bytes', 'bytes',
                                                   'bytearray', 'hex']))
        if rng.chance(.1):      # to the decoder of another format
            m['as'] = rng.choice(['btc', 'spr', 'ow', 'sap'])
        msgs.append(m)
    return dict(items=items, msgs=msgs)


def raw_of(c):
    k, v = c['kind'], c['v']
    if k == 'varint':
        return model.varint(v)
    return model.ser(v) if k in wire.TXK else wire.part_raw(k, v)


def numbers(c):
    '''offsets of the length and count bytes of an encoding'''
    k, v = c['kind'], c['v']
    out = []

    class R(model.Rd):
        def varint(self, compact=True):
            p = self.p
            n = super().varint(compact)
            out.append((p, self.p - p, n))
            return n
    raw = raw_of(c)
    old = model.Rd
    try:
        model.Rd = R
        if k in wire.TXK:
            model.parse(k, raw)
        elif k == 'varint':
            out.append((0, len(raw), v))
        else:
            model.PARTS[k][1](R(raw))
    except model.Bad:
        pass
    finally:
        model.Rd = old
    return out


def corrupt(raw, e, nums, raws):
    k, n = e[0], len(raw)
    i = min(n - 1, int(e[1] * n)) if n else 0
    ln = 1 + int(e[2] * e[2] * 80)
    if k == 'flip':
        if not n:
            return raw
        return raw[:i] + bytes([raw[i] ^ (1 << int(e[2] * 8))]) + raw[i + 1:]
    if k == 'set':
        b = bytes.fromhex(e[3])
        return raw[:i] + b + raw[i + len(b):]
    if k == 'zero':
        return raw[:i] + b'\0' * min(ln, n - i) + raw[i + ln:]
    if k == 'insert':
        return raw[:i] + bytes.fromhex(e[3]) + raw[i:]
    if k == 'drop':
        return raw[:i] + raw[i + ln:]
    if k == 'repeat':
        return raw[:i + ln] + raw[i:i + ln] + raw[i + ln:]
    if k == 'swap':
        return (raw[:i] + raw[i + ln:i + 2 * ln] + raw[i:i + ln]
                + raw[i + 2 * ln:])
    if k == 'splice':
        o = raws[e[3] % len(raws)]
        return raw[:i] + o[min(len(o), int(e[2] * len(o))):]
    if k == 'tail':
        return raw + bytes.fromhex(e[3])
    if k == 'cut':
        return raw[:i]
    if k in ('count', 'nonmin'):
        if not nums:
            return raw
        p, w, num = nums[min(len(nums) - 1, int(e[1] * len(nums)))]
        if p + w > n:
            return raw
        if k == 'count':
            num = max(0, num + e[3]) & (2 ** 64 - 1)
            b = model.varint(num)
            if e[2] < .1:
                b = b'\xff' + b'\xff' * 8
            elif e[2] < .2:
                b = b'\xfe\xff\xff\xff\x7f'
        else:
            b = {3: b'\xfd', 5: b'\xfe', 9: b'\xff'}[e[3]] + (
                num & (256 ** (e[3] - 1) - 1)).to_bytes(e[3] - 1, 'little')
        return raw[:p] + b + raw[p + w:]
    if k == 'push':
        # at the start of the first input script or anywhere
        b = bytes.fromhex(e[3])
        if nums and e[1] < .7:
            p, w, num = nums[min(len(nums) - 1, 1)]
            i = p + w
            if e[1] < .35 and num < 200 and len(b) + num < 250:
                # grow the script by the push
                return (raw[:p] + model.varint(num + len(b)) + b
                        + raw[i:])
        return raw[:i] + b + raw[i + len(b):]
    if k == 'flag':
        if raw[4:6] == b'\0\1':
            return raw[:4] + raw[6:]
        return raw[:4] + b'\0\1' + raw[4:]
    if k == 'header':
        j = int(e[2] * 8)
        return raw[:j] + bytes([int(e[1] * 256)]) + raw[j + 1:]
    return raw


def parse(kind, raw):
    'strict model: (fields, length) or None'
    try:
        if kind in wire.TXK:
            return model.parse(kind, raw)
        r = model.Rd(raw)
        if kind == 'varint':
            return r.varint(False), r.p
        v = model.PARTS[kind][1](r)
        return v, r.p
    except model.Bad:
        return None


def execute(sc, res):
    items = sc['items']
    raws = [raw_of(c) for c in items]
    nums = [numbers(c) for c in items]
    n = 0
    for s, m in enumerate(sc['msgs']):
        if m['item'] >= len(items):
            continue
        c = items[m['item']]
        raw = raws[m['item']]
        for e in m['edits']:
            raw2 = corrupt(raw, e, nums[m['item']], raws)
            if raw2 != raw:
                res.fault('wire_' + e[0])
            raw = raw2
        kind = c['kind']
        if 'as' in m and kind in wire.TXK:
            kind = m['as']
            res.fault('wrong_decoder')
        net = c['net'] if kind == c['kind'] or kind == 'btc' \
            else {'spr': 'zcash_sprout_main', 'ow': 'zcash_overwinter_main',
                  'sap': 'zcash_sapling_main'}[kind]
        lib.select(net)
        via = m['via']
        n += 1
        res.real_calls += 1
        res.simtime += 10
        try:
            o = wire.decode(kind, raw, via)
        except Exception as e:
            out = lib.exc(e)[1]
            res.ev(s, kind, len(raw), out)
            res.state(kind, [e[0] for e in m['edits']], out)
            continue
        enc = bytes(o.to_bytes())
        p = parse(kind, raw)
        info = dict(step=s, kind=kind, net=net, via=via,
                    raw=raw.hex()[:3000])
        if enc != raw[:len(enc)]:
            res.fail('reports bytes that were not on the wire',
                     got=enc.hex()[:3000], **info)
        elif p is None:
            res.fail('accepts what the format does not allow',
                     got=enc.hex()[:3000], **info)
        elif p[1] != len(enc):
            res.fail('wrong extent', got=len(enc), want=p[1], **info)
        elif len(o) != len(enc) or o.hex() != enc.hex():
            res.fail('inconsistent object', **info)
        elif kind in wire.TXK:
            if lib.read(o, kind) != lib.want(p[0]):
                res.fail('fields not those of the bytes',
                         got=lib.read(o, kind), want=lib.want(p[0]), **info)
            elif lib.got_ids(o) != model.ids(p[0], net, enc):
                res.fail('ids not those of the bytes', got=lib.got_ids(o),
                         want=model.ids(p[0], net, enc), **info)
        else:
            g, w = wire.part_read(o, kind), wire.part_want(kind, p[0])
            if g != w:
                res.fail('fields not those of the bytes', got=g, want=w,
                         **info)
        res.probe('decoded_in_spite_of_corruption')
        res.ev(s, kind, len(raw), 'ok', len(enc))
        res.state(kind, [e[0] for e in m['edits']], 'ok')
        if res.violations:
            return
    res.nontrivial = n >= 10
