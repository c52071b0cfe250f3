'''What nodes compute about a transaction, and what the model says they must.'''
from sim import gen, lib, model
from sim.lib_paths import CLASS_PATH

TXK = ('btc', 'dcr', 'spr', 'ow', 'sap')


def probes(rng, m, n=2):
    'signature hash requests: [index, type, anyone can pay, code, value, js]'
    out = []
    for _ in range(n):
        js = m['fam'] in ('ow', 'sap') and bool(m['js']) and rng.chance(.2)
        if not m['ins'] and not js:
            if m['fam'] != 'spr':
                js = True
        ni = max(1, len(m['ins']))
        out.append([rng.randrange(ni), rng.choice([1, 1, 3]), rng.chance(.4),
                    gen.script_code(rng), gen.value(rng), js])
    return out


def digest(o, fam, p):
    'the library: hex digest, or ["x", error]'
    i, typ, acp, code, value, js = p
    assert typ in (1, 3) and len(value) % 2 == 0 and len(code) > 1
    fn = o.sighash_all if typ == 1 else o.sighash_single
    code, value = bytes.fromhex(code), bytes.fromhex(value)
    try:
        if fam == 'btc' and not value:
            d = fn(i, code, anyone_can_pay=acp)
        elif fam == 'btc':
            d = fn(i, code, prevout_value=value, anyone_can_pay=acp)
        elif fam in ('spr', 'dcr'):
            d = fn(i, code, anyone_can_pay=acp)
        elif not value:
            d = fn(anyone_can_pay=acp, index=i, script_code=code)
        elif js:
            d = fn(anyone_can_pay=acp, joinsplit=True, index=i,
                   script_code=code, prevout_value=value)
        else:
            d = fn(anyone_can_pay=acp, index=i, script_code=code,
                   prevout_value=value)
    except Exception as e:
        return lib.exc(e)
    return lib.hx(d)


def digest_want(m, net, p):
    'the model: hex digest, or None (must be refused)'
    i, typ, acp, code, value, js = p
    if not js and i >= len(m['ins']) and (m['ins'] or m['fam'] != 'spr'):
        return None
    if len(value) != 16 and not (js and value) and (
            m['fam'] in ('ow', 'sap') or m['fam'] == 'btc' and (
            m['flag'] or gen.NETS[net]['forkid'] is not None)):
        return None     # the digest commits to the value
    d = model.sighash(m, net, i, typ, acp, bytes.fromhex(code),
                      bytes.fromhex(value), js)
    return None if d is None else d.hex()


def digest_ok(got, want):
    if want is None:
        return isinstance(got, list)
    return got == want


def ow_single_acp(m, net, p, got):
    'is this the known finding: ANYONECANPAY left out of SINGLE (Overwinter)'
    return (m['fam'] == 'ow' and p[1] == 3 and p[2]
            and got == digest_want(m, net, p[:2] + [False] + p[3:]))


def facts(o, kind, fam, net, pr=(), values=None):
    'everything observable that the properties speak of'
    d = dict(cls=type(o).__name__, raw=o.to_bytes().hex(), len=len(o),
             hex=o.hex())
    if kind not in TXK:
        if kind == 'txin':
            d['fields'] = dict(
                txid=lib.hx(o.outpoint.tx_id), index=lib.hx(o.outpoint.index),
                sig=lib.hx(lib.attr(o, 'script_sig')) or '',
                seq=lib.hx(o.sequence))
        elif kind == 'wit':
            d['fields'] = dict(n=len(o.stack),
                               items=[lib.hx(i.item) for i in o.stack],
                               raws=[lib.hx(i) for i in o.stack])
        else:
            d['fields'] = lib.fields(o)
        d['part'] = part_read(o, kind)
        return d
    d['read'] = lib.read(o, kind)
    d['ids'] = lib.got_ids(o)
    try:
        d['fee'] = (o.calculate_fee() if kind == 'dcr'
                    else o.calculate_fee(values))
    except Exception as e:
        d['fee'] = lib.exc(e)
    if kind in ('spr', 'ow', 'sap') and not (
            kind == 'spr' and lib.attr(o, 'joinsplit_pubkey') is None):
        d['hsigs'] = [lib.hx(x) for x in o.hsigs]
        d['pinputs'] = [lib.hx(x) for x in o.primary_inputs]
    d['digests'] = [digest(o, kind, p) for p in pr]
    return d


def check_facts(d, m, kind, net, pr, values, raw=None):
    'list of what is wrong with facts about m; raw: bytes as they were sent'
    bad = []

    def ck(name, got, want):
        if got != want:
            bad.append(dict(fact=name, got=got, want=want))
    raw = model.ser(m) if raw is None else raw
    ck('raw', d['raw'], raw.hex())
    ck('hex', d['hex'], raw.hex())
    ck('len', d['len'], len(raw))
    ck('class', d['cls'], CLASS_PATH[kind].split('.')[-1])
    ck('read', d['read'], lib.want(m))
    ck('ids', d['ids'], model.ids(m, net, raw))
    ck('fee', d['fee'], model.fee(m, values))
    if 'hsigs' in d:
        ck('hsigs', d['hsigs'], model.hsigs(m))
        ck('pinputs', d['pinputs'], model.primary_inputs(m))
    known = 0
    for p, g in zip(pr, d['digests']):
        w = digest_want(m, net, p)
        if ow_single_acp(m, net, p, g) and not digest_ok(g, w):
            known += 1
            continue
        if not digest_ok(g, w):
            bad.append(dict(fact='digest', probe=p, got=g, want=w))
    return bad


# field of a part dict -> public attribute (path) of the object
_OP = dict(txid='outpoint.tx_id', index='outpoint.index', seq='sequence')
_JS = dict(vold='vpub_old', vnew='vpub_new', anchor='anchor',
           nulls='nullifiers', comms='commitments', epk='ephemeral_key',
           seed='random_seed', vmacs='vmacs', proof='zkproof',
           notes='encoded_notes')
ATTRS = {
    'outpoint': dict(txid='tx_id', index='index'),
    'doutpoint': dict(txid='tx_id', index='index', tree='tree'),
    'txin': dict(_OP, sig='script_sig'),
    'dtxin': dict(_OP, tree='outpoint.tree'),
    'txout': dict(value='value', script='output_script'),
    'dtxout': dict(value='value', ver='version', script='output_script'),
    'sproof': dict(a='pi_sub_a', a2='pi_prime_sub_a', b='pi_sub_b',
                   b2='pi_prime_sub_b', c='pi_sub_c', c2='pi_prime_sub_c',
                   k='pi_sub_k', h='pi_sub_h'),
    'gproof': dict(a='pi_sub_a', b='pi_sub_b', c='pi_sub_c'),
    'sjs': _JS, 'gjs': _JS,
    'ss': dict(cv='cv', anchor='anchor', null='nullifier', rk='rk',
               proof='zkproof', sig='spend_auth_sig'),
    'so': dict(cv='cv', cmu='cmu', epk='ephemeral_key', enc='enc_ciphertext',
               out='out_ciphertext', proof='zkproof'),
}


def part_read(o, kind):
    'fields of a part, as its public attributes give them'
    if kind == 'item':
        return lib.hx(o.item)
    if kind == 'wit':
        return [lib.hx(i.item) for i in o.stack]
    if kind == 'varint':
        return o.number
    d = {}
    for f, path in ATTRS[kind].items():
        v = o
        for a in path.split('.'):
            v = lib.attr(v, a)
        d[f] = lib.hx(v) or ''
    return d


def part_want(kind, v):
    if kind == 'txin' and 'sig' not in v:
        v = dict(v, sig=v['stack'] + v['redeem'])
    if kind in ATTRS:
        return {f: v[f] for f in ATTRS[kind]}
    return v


def part_raw(kind, v):
    return model.PARTS[kind][0](v)


def decode(kind, raw, via='bytes'):
    c = lib.cls(kind)
    if via == 'hex':
        return c.from_hex(raw.hex())
    if via == 'bytearray':
        b = bytearray(raw)
        o = c.from_bytes(b)
        for i in range(len(b)):
            b[i] ^= 0xa5
        return o
    return c.from_bytes(raw)
