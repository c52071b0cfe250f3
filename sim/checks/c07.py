'''C07: data cut short is refused, at every cut point.

A session reads transactions and parts from several connections at once; the
simulator decides how many bytes each delivers next, and where it closes, where
a write was torn, or a read came back short. After every delivery the reader
tries to decode what it has; at the end every item's prefixes are tried as
well (all cut points of small items; of big ones the field boundaries with
their neighbours and random ones). Oracle: decoding raises unless an
independent strict parser finds the prefix to be a complete encoding itself
(unsigned forms), and then the fields are the parser's; the complete item
decodes to what was sent.
'''
from sim import gen, lib, model, wire

ID = 'C07'
RUNS = dict(quick=3200, thorough=200000)
COMPONENTS = dict(real=['all decoders of riemann'],
                  stub=['connections and files (simulated deliveries)'])
NONTRIVIAL = 'at least 20 cut points were tried'
STATES = 'digest of (kind, vector lengths, field the cut falls into)'


def gen_(rng, tier):
    conns = []
    fam = rng.choice([None, 'btc', 'spr', 'ow', 'sap'])
    for _ in range(rng.randint(1, 3)):
        f = fam or rng.choice(['btc', 'btc', 'spr', 'ow', 'sap', 'dcr'])
        net = gen.net_for(rng, f)
        if f == 'dcr' or rng.chance(.35):
            k = rng.choice([p for p in gen.PART_KINDS[f] if p != 'dwit']
                           + ['varint'])
            v = gen.part(rng, k) if k != 'varint' else rng.choice(
                [0xfd, 0xffff, 0x10000, 0xffffffff, 2 ** 32, 2 ** 64 - 1, 7])
        else:
            k, v = f, gen.tx(rng, net, big=rng.chance(.05))
        conns.append(dict(net=net, kind=k, v=v, close=rng.choice(
            [1, 1, rng.random()]), how=rng.choice(['closed', 'torn',
                                                   'short_read'])))
    sched = [[rng.randrange(len(conns)), rng.choice(
        [1, 2, 4, 8, 32, 33, 36, 40, 41, 100, 1000, rng.randint(1, 300)])]
        for _ in range(rng.randint(3, 30))]
    return dict(conns=conns, sched=sched, salt=rng.getrandbits(30),
                via=rng.choice(['bytes', 'bytes', 'bytearray', 'hex']))


def raw_of(c):
    k, v = c['kind'], c['v']
    if k == 'varint':
        return model.varint(v)
    return model.ser(v) if k in wire.TXK else wire.part_raw(k, v)


def complete(kind, raw):
    'mtx if the prefix is itself a complete encoding'
    if kind not in wire.TXK:
        return None
    try:
        m, n = model.parse(kind, raw)
    except (model.Bad, IndexError):
        return None
    return m if n == len(raw) else None


def attempt(c, raw, via, total, res, where):
    'decode a prefix and judge'
    kind = c['kind']
    try:
        o = wire.decode(kind, raw, via) if kind != 'varint' \
            else wire.decode(kind, raw, via)
    except Exception as e:
        err = lib.exc(e, True)
        if len(raw) == total and not c.get('refusable'):
            res.fail('complete data refused', kind=kind, net=c['net'],
                     where=where, error=err, raw=raw.hex()[:2000])
        return False
    finally:
        res.real_calls += 1
    got = o.to_bytes()
    if len(raw) == total:
        if bytes(got) != raw:
            res.fail('complete data changed', kind=kind, net=c['net'],
                     where=where, raw=raw.hex()[:2000], got=got.hex()[:2000])
        return True
    m = complete(kind, raw)
    if m is None:
        res.fail('cut data accepted', kind=kind, net=c['net'], where=where,
                 cut=len(raw), of=total, raw=raw.hex()[:2000],
                 got=bytes(got).hex()[:2000])
    elif lib.read(o, kind) != lib.want(m) or bytes(got) != raw:
        res.fail('unsigned form misread', kind=kind, net=c['net'],
                 where=where, raw=raw.hex()[:2000])
    else:
        res.probe('unsigned_form_accepted')
    return True


def cuts(total, salt, bounds):
    if total <= 700:
        return range(total)
    pts = set(range(0, 60)) | set(range(total - 40, total))
    for b in bounds:
        pts.update(range(max(0, b - 2), min(total, b + 3)))
    x = salt
    for _ in range(150):
        x = (x * 1103515245 + 12345) & 0x7fffffff
        pts.add(x % total)
    pts = sorted(pts)
    if len(pts) > 900:
        pts = [p for i, p in enumerate(pts) if i < 60 or (i + salt)
               % (len(pts) // 700) == 0 or i > len(pts) - 40]
    return pts


def boundaries(c):
    'offsets at which fields of the item begin (found in its encoding)'
    k, v = c['kind'], c['v']
    out, raw = set(), raw_of(c)
    if k not in wire.TXK:
        return {0, 4, 8, 32, 36}
    pos = 0
    for i in v['ins'][:300]:
        p = raw.find(bytes.fromhex(i['txid']), pos)
        if p < 0:
            break
        pos = p + 36
        out.update((p, p + 32, pos))
    for o in v['outs'][:300]:
        p = raw.find(bytes.fromhex(o['value']), pos)
        if p < 0:
            break
        pos = p + 9
        out.update((p, p + 8, pos))
    for key, lay in (('ss', model.SS), ('so', model.SO),
                     ('js', model.JS_G if k == 'sap' else model.JS_S)):
        for x in (v.get(key) or [])[:20]:
            p = raw.find(model.ser_fixed(lay, x), pos)
            if p < 0:
                break
            for f, n in lay:
                out.add(p)
                p += n
            out.add(p)
            pos = p
    return out


def execute(sc, res):
    conns = sc['conns']
    buf = [b''] * len(conns)
    raws = [raw_of(c) for c in conns]
    n = 0
    for step, (i, k) in enumerate(sc['sched']):
        if i >= len(conns):
            continue
        c = conns[i]
        res.simtime += 5
        limit = int(len(raws[i]) * c['close'])
        if len(buf[i]) >= limit:
            continue
        buf[i] = raws[i][:min(limit, len(buf[i]) + k)]
        lib.select(c['net'])
        ok = attempt(c, buf[i], sc['via'], len(raws[i]), res,
                     'delivery %d' % step)
        n += 1
        res.ev(step, i, c['kind'], len(buf[i]), ok)
        if len(buf[i]) == limit and limit < len(raws[i]):
            res.fault(c['how'])
        else:
            res.fault('partial_delivery')
        if res.violations:
            return
    for i, c in enumerate(conns):
        total = len(raws[i])
        lib.select(c['net'])
        shape = [c['kind']] + ([len(c['v'].get(x) or ()) for x in
                                ('ins', 'outs', 'wits', 'js', 'ss', 'so')]
                               if c['kind'] in wire.TXK else [])
        bounds = boundaries(c)
        for cut in cuts(total, sc['salt'], bounds):
            attempt(c, raws[i][:cut], sc['via'], total, res, 'sweep')
            n += 1
            if res.violations:
                return
        if sc['via'] == 'hex' and total < 3000:
            # cut inside a hex pair
            for cut in range(1, 2 * total, 2 + 2 * (total > 200)):
                try:
                    lib.cls(c['kind']).from_hex(raws[i].hex()[:cut])
                except Exception:
                    continue
                res.fail('cut data accepted', kind=c['kind'], net=c['net'],
                         where='inside a hex pair', cut=cut)
                return
        attempt(c, raws[i], sc['via'], total, res, 'whole')
        res.state(shape, sc['via'])
        res.ev('sweep', c['kind'], total, n)
    res.fault('cut', n)
    res.nontrivial = n >= 20
