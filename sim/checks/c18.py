'''C18: damaged requests never build a malformed transaction.

Clients ask a builder for transactions, parts and numbers over a link that
damages the fields on the way (cut, extended, emptied, flipped, exchanged,
missing, of another type, list entries lost, repeated, exchanged or replaced
by parts of another kind, numbers out of range), and that loses, repeats and
reorders requests; builds are interrupted at chosen steps. A client whose
answer is not what it asked for asks again. Oracle: a strict reading of the
request as it arrived: if it describes a well-formed object the library must
build exactly that, if not it must refuse; once the link is good, everything
asked for gets built.
'''
import copy as _copy
import json

from sim import builders, gen, lib, model, trace, wire
from sim.gen import rb
from sim.lib_paths import CLASS_PATH

ID = 'C18'
RUNS = dict(quick=12000, thorough=400000)
COMPONENTS = dict(real=['riemann: constructors, integer helpers, number '
                        'prefixes, tx_builder, simple'],
                  stub=['link between client and builder', 'interruption'])
NONTRIVIAL = 'a damaged request was refused and another built'
STATES = 'digest of (kind asked for, damage, verdict of the strict reading)'

KIND = {v: k for k, v in CLASS_PATH.items()}
PARTS = list(model.PARTS) + ['dwit']
NUMS = dict(i2le_padded='utils.i2le_padded', i2be_padded='utils.i2be_padded',
            i2le='utils.i2le', i2be='utils.i2be', varint='shared.VarInt',
            outpoint='tb.make_outpoint', input='tb.make_witness_input',
            legacy='tb.make_legacy_input', tx='tb.make_tx',
            output='simple.output')
NET_OF = dict(doutpoint='dcr', dtxin='dcr', dtxout='dcr', dwit='dcr',
              sproof='spr', sjs='spr', gproof='sap', gjs='sap', ss='sap',
              so='sap')


class Bad(Exception):
    'must be refused'


class Open(Exception):
    'neither the format nor the documentation says'


# ------------------------------------------------------- the strict reading

def leaf(x, n=None):
    if not isinstance(x, dict):
        raise Bad('not bytes')
    h = x.get('h', x.get('ba'))
    if h is None:
        if 'f' in x:
            raise Open('a part for bytes')
        raise Bad('not bytes')
    if n is not None and len(h) != 2 * n:
        raise Bad('%d bytes for %d' % (len(h) // 2, n))
    return h


def opt(x, n):
    return None if x is None else leaf(x, n)


def items(x, kind, net):
    if isinstance(x, dict) and x.get('h', x.get('ba')) == '':
        raise Open('an empty sequence of another type')
    if not isinstance(x, dict) or not ('l' in x or 't' in x):
        raise Bad('not a list')
    return [obj(y, kind, net) for y in x.get('l', x.get('t'))]


def raw_of(kind, rec):
    'the encoding of a part'
    if kind != 'dwit':
        return wire.part_raw(kind, rec)
    s = rec['stack'] + rec['redeem']
    return bytes.fromhex(rec['value'] + rec['height'] + rec['index']) \
        + gen.varint(len(s) // 2) + bytes.fromhex(s)


def obj(x, kind, net):
    'the record of a part of exactly this kind'
    if isinstance(x, dict) and ('h' in x or 'ba' in x) and kind in (
            'outpoint', 'doutpoint'):
        leaf(x, 36 if kind == 'outpoint' else 37)
        raise Open('bytes for a part')
    if not isinstance(x, dict) or x.get('f') != CLASS_PATH[kind]:
        if isinstance(x, dict) and 'f' in x:
            k, r = read(x, net)     # of another kind, if it is one at all
            if kind in ('outpoint', 'doutpoint') and len(
                    raw_of(k, r)) == 36 + (kind[0] == 'd'):
                raise Open('a part of the size of an outpoint')
        raise Bad('not a ' + kind)
    return read(x, net)[1]


def read(x, net):
    '(kind, record) that a call expression describes'
    k = KIND[x['f']]
    a = x['a']
    fam = model.fam_of(net)
    if k == 'item':
        n = 1
    elif k in ('wit',):
        n = 1
    else:
        n = dict(outpoint=2, doutpoint=3, txin=4, dtxin=2, txout=2, dtxout=3,
                 dwit=5, sproof=8, gproof=3, sjs=10, gjs=10, ss=6, so=6,
                 btc=6, dcr=6, spr=7, ow=7, sap=11)[k]
    if len(a) != n:
        raise Bad('%d arguments for %d' % (len(a), n))
    if k in ('dcr', 'spr', 'ow', 'sap') and fam != k or \
            k in NET_OF and (NET_OF[k] == 'dcr') != (fam == 'dcr') or \
            NET_OF.get(k) in ('spr', 'sap') and fam == 'btc':
        raise Bad('another chain')
    rec = RULES[k](a, net)
    return k, rec


def fixed(layout, proof=None):
    def rule(a, net):
        d = {}
        for (f, n), x in zip(layout, a):
            if f == 'proof':
                p = obj(x, proof, net)
                d[f] = model.PARTS[proof][0](p).hex()
            else:
                d[f] = leaf(x, n)
        if 'vold' in d and int(d['vold'], 16) and int(d['vnew'], 16):
            raise Bad('value on both sides')
        return d
    return rule


def r_txin(a, net):
    d = dict(obj(a[0], 'outpoint', net))
    d.update(stack=leaf(a[1]), redeem=leaf(a[2]), seq=leaf(a[3], 4))
    if len(d['stack']) + len(d['redeem']) > 3300:
        raise Bad('script_sig too long')
    return d


def r_dtxin(a, net):
    return dict(obj(a[0], 'doutpoint', net), seq=leaf(a[1], 4))


def r_btc(a, net):
    v, lock = leaf(a[0], 4), leaf(a[5], 4)
    ins, outs = items(a[2], 'txin', net), items(a[3], 'txout', net)
    wits = None if a[4] is None else items(a[4], 'wit', net)
    if a[1] is not None:
        if leaf(a[1]) != '0001':
            raise Bad('flag')
    if wits and (a[1] is None or len(wits) != len(ins)):
        raise Bad('witnesses')
    if not ins or not outs:
        raise Bad('empty')
    if a[1] is not None and not gen.NETS[net]['segwit']:
        raise Open('flag on a network without witnesses')
    return dict(fam='btc', version=v, flag=a[1] is not None, ins=ins,
                outs=outs, wits=wits or (wits if a[1] is not None else []),
                lock=lock)


def small(m):
    if len(model.ser(m)) > 100000:
        raise Bad('too large')
    return m


def r_dcr(a, net):
    m = dict(fam='dcr', version=leaf(a[0], 4),
             ins=items(a[1], 'dtxin', net), outs=items(a[2], 'dtxout', net),
             lock=leaf(a[3], 4), expiry=leaf(a[4], 4),
             wits=items(a[5], 'dwit', net))
    if not m['ins'] or not m['outs']:
        raise Bad('empty')
    return small(m)


def r_spr(a, net):
    m = dict(fam='spr', version=leaf(a[0], 4), ins=items(a[1], 'txin', net),
             outs=items(a[2], 'txout', net), lock=leaf(a[3], 4))
    v = int.from_bytes(bytes.fromhex(m['version']), 'little')
    if v not in (1, 2):
        raise Bad('version')
    if v == 1:
        if a[4] is None:
            raise Open('no joinsplits')
        n = a[4].get('l', a[4].get('t')) if isinstance(a[4], dict) else None
        if n != [] or not m['ins']:
            raise Bad('version 1')
        m.update(js=[], jspub=None, jssig=None)
        return small(m)
    m['js'] = items(a[4], 'sjs', net)
    if len(m['js']) > 5:
        raise Bad('joinsplits')
    m['jspub'] = leaf(a[5], 32)
    if a[6] is None:
        raise Open('no signature')
    m['jssig'] = leaf(a[6])
    if len(m['jssig']) not in (0, 128):
        raise Bad('signature')
    return small(m)


def joinsplits(m, x, pub, sig, kind, net):
    m['js'] = items(x, kind, net)
    if len(m['js']) > 5:
        raise Bad('joinsplits')
    m['jspub'] = m['jssig'] = None
    if m['js']:
        m['jspub'], m['jssig'] = leaf(pub, 32), leaf(sig, 64)


def r_ow(a, net):
    m = dict(fam='ow', ins=items(a[0], 'txin', net),
             outs=items(a[1], 'txout', net), lock=leaf(a[2], 4),
             expiry=leaf(a[3], 4))
    if model.le(m['expiry']) > 499999999:
        raise Bad('expiry')
    joinsplits(m, a[4], a[5], a[6], 'sjs', net)
    if not m['ins'] and not m['js']:
        raise Bad('empty')
    return small(m)


def r_sap(a, net):
    m = dict(fam='sap', ins=items(a[0], 'txin', net),
             outs=items(a[1], 'txout', net), lock=leaf(a[2], 4),
             expiry=leaf(a[3], 4), vbal=leaf(a[4], 8))
    if model.le(m['expiry']) > 499999999:
        raise Bad('expiry')
    m['ss'], m['so'] = items(a[5], 'ss', net), items(a[6], 'so', net)
    joinsplits(m, a[7], a[8], a[9], 'gjs', net)
    m['bsig'] = None
    if m['ss'] or m['so']:
        m['bsig'] = leaf(a[10], 64)
    else:
        if int(m['vbal'], 16):
            raise Bad('balance')
        if a[10] is not None:
            raise Open('a binding signature for nothing')
    if not (m['ins'] or m['js'] or m['ss']):
        raise Bad('empty')
    return small(m)


RULES = dict(
    outpoint=fixed(model.OUTPOINT), doutpoint=fixed(model.DOUTPOINT),
    txin=r_txin, dtxin=r_dtxin,
    txout=lambda a, n: dict(value=leaf(a[0], 8), script=leaf(a[1])),
    dtxout=lambda a, n: dict(value=leaf(a[0], 8), ver=leaf(a[1], 2),
                             script=leaf(a[2])),
    item=lambda a, n: leaf(a[0]), wit=lambda a, n: items(a[0], 'item', n),
    dwit=lambda a, n: dict(value=leaf(a[0], 8), height=leaf(a[1], 4),
                           index=leaf(a[2], 4), stack=leaf(a[3]),
                           redeem=leaf(a[4])),
    sproof=fixed(model.PROOF_S), gproof=fixed(model.PROOF_G),
    sjs=fixed(model.JS_S, 'sproof'), gjs=fixed(model.JS_G, 'gproof'),
    ss=fixed(model.SS, 'gproof'), so=fixed(model.SO, 'gproof'),
    btc=r_btc, dcr=r_dcr, spr=r_spr, ow=r_ow, sap=r_sap)


def verdict(x, net):
    '("ok", kind, record), ("bad", why) or ("open", why)'
    try:
        return ['ok', *read(x, net)]
    except Bad as e:
        return ['bad', str(e)]
    except Open as e:
        return ['open', str(e)]


# ----------------------------------------------------------------- damage

def nodes(x, path=(), out=None):
    'all places in a call expression'
    out = [] if out is None else out
    if path:
        out.append((path, x))
    if isinstance(x, dict):
        for k in ('a', 'l', 't'):
            for i, y in enumerate(x.get(k, ())):
                nodes(y, path + (k, i), out)
    return out


def get(x, path):
    for p in path:
        x = x[p]
    return x


SIBLING = ('flip', 'zero', 'pre')


def sibling(y):
    'the like of part y in another chain or format'
    k, a = KIND[y['f']], y['a']

    def mk(kind, *args):
        return {'f': CLASS_PATH[kind], 'a': list(args)}
    zero = {'sproof': mk('sproof', *[{'h': '00' * n}
                                     for _, n in model.PROOF_S]),
            'gproof': mk('gproof', *[{'h': '00' * n}
                                     for _, n in model.PROOF_G])}
    if k == 'outpoint':
        return mk('doutpoint', *a, {'h': '00'})
    if k == 'doutpoint':
        return mk('outpoint', *a[:2])
    if k == 'dtxin' and len(a) == 2 and isinstance(a[0], dict) and \
            a[0].get('f') == CLASS_PATH['doutpoint']:
        return mk('txin', sibling(a[0]), {'h': ''}, {'h': ''}, a[1])
    if k == 'txin' and len(a) == 4 and isinstance(a[0], dict) and \
            a[0].get('f') == CLASS_PATH['outpoint']:
        return mk('dtxin', sibling(a[0]), a[3])
    if k == 'txout':
        return mk('dtxout', *a[:1], {'h': '0000'}, *a[1:])
    if k == 'dtxout':
        return mk('txout', *a[:1], *a[2:])
    if k in ('sproof', 'gproof'):
        return zero['gproof' if k == 'sproof' else 'sproof']
    if k in ('sjs', 'gjs') and len(a) == 10:
        o = 'gjs' if k == 'sjs' else 'sjs'
        return mk(o, *a[:8], zero['gproof' if o == 'gjs' else 'sproof'],
                  a[9])
    if k == 'wit':
        return mk('item', {'h': '00'})
    return None


def damage(x, d):
    'apply one damage to a copy; returns (expression, what happened)'
    x = _copy.deepcopy(x)
    ns = nodes(x)
    if d['where'] == 'top':
        ns = [n for n in ns if len(n[0]) == 2]
    elif d['where'] == 'short':
        # fields of few bytes, not the long ones
        ns = [n for n in ns if isinstance(n[1], dict)
              and 0 < len(n[1].get('h', '')) <= 80] or ns
    elif d['where'] == 'list':
        ns = [n for n in ns if isinstance(n[1], dict)
              and ('l' in n[1] or 't' in n[1])] or ns
    if not ns:
        return x, 'nothing'
    path, y = ns[int(d['at'] * len(ns))]
    up, i = get(x, path[:-1]), path[-1]
    op = d['op']
    if isinstance(y, dict) and ('h' in y or 'ba' in y):
        k = 'h' if 'h' in y else 'ba'
        b = bytes.fromhex(y[k])
        j = int(d['j'] * max(1, len(b)))
        if op == 'cut':
            b = b[:-d['n']]
        elif op == 'head':
            b = b[d['n']:]
        elif op == 'ext':
            b += bytes([d['byte']]) * d['n']
        elif op == 'pre':
            b = bytes([d['byte']]) * d['n'] + b
        elif op == 'empty':
            b = b''
        elif op == 'double':
            b += b
        elif op == 'none':
            up[i] = None
            return x, 'none'
        elif op == 'int':
            up[i] = int.from_bytes(b[:8], 'little')
            return x, 'int'
        elif op == 'str':
            up[i] = b.hex()
            return x, 'str'
        elif op == 'zero':
            b = bytes(len(b))
        elif op in ('swap', 'foreign'):
            z = get(x, ns[int(d['j'] * len(ns))][0])
            if isinstance(z, dict) and ('h' in z or 'ba' in z):
                b = bytes.fromhex(z.get('h', z.get('ba')))
        elif b:
            b = b[:j] + bytes([b[j] ^ (d['byte'] or 1)]) + b[j + 1:]
            op = 'flip'
        y[k] = b.hex()
        return x, op
    if isinstance(y, dict) and ('l' in y or 't' in y):
        v = y['l'] if 'l' in y else y['t']
        j = int(d['j'] * max(1, len(v)))
        if op in ('cut', 'head') and v:
            del v[j]
            return x, 'entry lost'
        if op in ('double', 'ext') and v:
            v.insert(j, _copy.deepcopy(v[j]))
            return x, 'entry repeated'
        if op == 'swap' and len(v) > 1:
            v[j - 1], v[j] = v[j], v[j - 1]
            return x, 'entries exchanged'
        if op == 'empty':
            v.clear()
            return x, 'emptied'
        if op == 'none':
            up[i] = None
            return x, 'no list'
        if op in ('foreign', 'flip', 'pre'):
            cs = [n for _, n in nodes(x) if isinstance(n, dict) and 'f' in n]
            if cs:
                z = _copy.deepcopy(cs[int(d['n'] * 7919 % len(cs))])
                v.insert(j, z)
                return x, 'foreign entry'
        if op == 'many' and v:
            v.extend(_copy.deepcopy(v[:1]) * (7 - len(v)))
            return x, 'many entries'
        if op == 'huge' and v:
            size = len(json.dumps(v[0])) // 3
            v.extend(_copy.deepcopy(v[:1]) * (100500 // size))
            return x, 'huge list'
        return x, 'nothing'
    if isinstance(y, dict) and 'f' in y:
        a = y['a']
        j = int(d['j'] * max(1, len(a)))
        if op == 'cut' and a:
            a.pop()
            return x, 'argument lost'
        if op == 'ext':
            a.append({'h': '00'})
            return x, 'argument added'
        if op == 'swap' and len(a) > 1:
            a[j - 1], a[j] = a[j], a[j - 1]
            return x, 'arguments exchanged'
        if op == 'none':
            up[i] = None
            return x, 'no part'
        if op in SIBLING:
            z = sibling(y)
            if z:
                up[i] = z
                return x, 'sibling part'
        if op == 'foreign':
            cs = [n for _, n in nodes(x) if isinstance(n, dict) and 'f' in n]
            up[i] = _copy.deepcopy(cs[int(d['n'] * 7919 % len(cs))])
            return x, 'foreign part'
        if op == 'empty':
            up[i] = {'h': ''}
            return x, 'bytes for a part'
        return x, 'nothing'
    if y is None and op in ('ext', 'pre', 'int', 'flip'):
        up[i] = {'h': 'ab' * d['n']} if op != 'int' else 1
        return x, 'something for nothing'
    return x, 'nothing'


def a_damage(rng):
    return dict(where=rng.pick([(3, 'any'), (3, 'top'), (3, 'short'),
                                (3, 'list')]),
                at=rng.random(), j=rng.random(),
                n=rng.pick([(6, 1), (1, 2), (1, 4), (1, rng.randint(1, 40))]),
                byte=rng.choice([0, 0, 1, 255, rng.randrange(256)]),
                op=rng.choice(['cut', 'cut', 'head', 'ext', 'ext', 'pre',
                               'empty', 'double', 'none', 'int', 'str',
                               'zero', 'swap', 'foreign', 'flip', 'flip',
                               'many'] + ['huge'] * rng.chance(.1)))


# --------------------------------------------------------------- numbers

def a_number(rng):
    w = rng.choice([1, 2, 4, 4, 8, 8, 32])
    n = rng.pick([
        (2, rng.getrandbits(8 * w)), (2, 256 ** w + rng.choice([-1, 0, 1])),
        (1, -1), (1, -rng.getrandbits(31)), (1, 0), (1, 1),
        (1, rng.choice([0xfb, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0xffff, 0x10000,
                        0xffffffff, 2 ** 32, 2 ** 63, 2 ** 64 - 1,
                        2 ** 64]))])
    fn = rng.choice(list(NUMS))
    d = dict(fn=fn, n=n, w=w, len=rng.choice([None, 1, 3, 5, 9]),
             tree=rng.choice([None, 0, 1, 255, 256, -1]),
             which=rng.choice(['version', 'lock_time', 'expiry']),
             hash=rb(rng, 20).hex())
    return d


def number_expr(d, net):
    '(expression, expected bytes or None: refused, or Open)'
    fn, n, w = d['fn'], d['n'], d['w']
    dcr = model.fam_of(net) == 'dcr'
    h = {'h': '11' * 32}

    def le(x, k):
        return x.to_bytes(k, 'little') if 0 <= x < 256 ** k else None
    if fn in ('i2le_padded', 'i2be_padded'):
        v = le(n, w)
        return {'f': NUMS[fn], 'a': [n, w]}, v and (
            v if fn == 'i2le_padded' else v[::-1])
    if fn in ('i2le', 'i2be'):
        v = None
        if n >= 0:
            v = n.to_bytes(max(1, (n.bit_length() + 7) // 8), 'little')
            v = v if fn == 'i2le' else v[::-1]
        return {'f': NUMS[fn], 'a': [n]}, v
    if fn == 'varint':
        v = None
        if 0 <= n < 2 ** 64:
            k = max(1 if n < 0xfd else 3 if n < 2 ** 16 else
                    5 if n < 2 ** 32 else 9, d['len'] or 0)
            v = bytes([n]) if k == 1 else bytes(
                [{3: 0xfd, 5: 0xfe, 9: 0xff}[k]]) + le(n, k - 1)
        return {'f': NUMS[fn], 'a': [n] + (
            [d['len']] if d['len'] else [])}, v
    op = {'f': NUMS['outpoint'], 'a': [h, 0]}
    opraw = b'\x11' * 32 + bytes(5 if dcr else 4)
    if fn == 'outpoint':
        v = le(n, 4)
        a = [h, n]
        if d['tree'] is not None:
            a.append(d['tree'])
        if v is not None:
            v = b'\x11' * 32 + v
            if dcr:
                t = le(d['tree'] or 0, 1)
                v = None if t is None else v + t
        return {'f': NUMS[fn], 'a': a}, v
    if fn in ('input', 'legacy'):
        v = le(n, 4)
        e = {'h': ''}
        return {'f': NUMS[fn], 'a': [op, n] if fn == 'input'
                else [op, e, e, n]}, v and opraw + (b'' if dcr else b'\0') + v
    if fn == 'output':
        if model.fam_of(net) != 'btc':
            return None, None
        v = le(n, 8)
        addr = model.make_address(net, 'p2pkh', bytes.fromhex(d['hash']))
        return {'f': NUMS[fn], 'a': [n, addr]}, v and (
            v + b'\x19\x76\xa9\x14' + bytes.fromhex(d['hash']) + b'\x88\xac')
    # make_tx
    fam = model.fam_of(net)
    vals = dict(version=1, lock_time=0, expiry=0)
    which = d['which']
    if which == 'version' and fam in ('spr', 'ow', 'sap'):
        which = 'lock_time'
    if which == 'expiry' and fam in ('btc', 'spr'):
        which = 'lock_time'
    vals[which] = n
    out = {'f': 'tb._make_output', 'a': [{'h': '00' * 8}, {'h': '51'}]}
    k = dict(version=vals['version'], lock_time=vals['lock_time'],
             tx_ins={'l': [{'f': NUMS['input'], 'a': [op, 0]}]},
             tx_outs={'l': [out]})
    if fam in ('dcr', 'ow', 'sap'):
        k['expiry'] = vals['expiry']
    if fam == 'spr':
        k['tx_joinsplits'] = {'l': []}
    v = le(n, 4)
    if which == 'expiry' and fam in ('ow', 'sap') and n > 499999999:
        v = None
    if v is not None:
        i = dict(txid='11' * 32, index='00000000', tree='00', stack='',
                 redeem='', seq='00000000')
        o = dict(value='00' * 8, ver='0000', script='51')
        m = dict(fam=fam, ins=[i], outs=[o], flag=False, wits=[], js=[],
                 ss=[], so=[], jspub=None, jssig=None, bsig=None,
                 vbal='00' * 8, version=le(vals['version'], 4).hex(),
                 lock=le(vals['lock_time'], 4).hex(),
                 expiry=le(vals['expiry'], 4).hex())
        v = model.ser(m)
    return {'f': NUMS[fn], 'a': [], 'k': k}, v


# ---------------------------------------------------------------- the runs

def gen_(rng, tier):
    reqs = []
    for _ in range(rng.randint(1, 4)):
        mut, seq = rng.chance(.2), rng.choice(['l', 'l', 't'])
        b = lib_build(mut, seq)
        if rng.chance(.2):
            reqs.append(dict(net=gen.any_net(rng), num=a_number(rng)))
            continue
        if rng.chance(.3):
            r = builders.request(rng, b)
            reqs.append(dict(net=r['net'], b=[r['fn'], r['p']]))
            continue
        if rng.chance(.35):
            k = rng.choice(PARTS)
            net = (gen.net_for(rng, NET_OF[k]) if k in NET_OF
                   else gen.any_net(rng))
            x = getattr(b, k)(gen.part(rng, k))
        else:
            net = gen.any_net(rng) if rng.chance(.5) else gen.net_for(
                rng, rng.choice(['dcr', 'spr', 'ow', 'sap']))
            x = b.tx(gen.tx(rng, net, ins=rng.pick(
                [(3, None), (3, rng.randint(1, 2))])))
        reqs.append(dict(net=net, x=x))
    steps = []
    for _ in range(rng.randint(3, 14)):
        i = rng.randrange(len(reqs))
        st = dict(i=i)
        if 'x' in reqs[i] and rng.chance(.85):
            st['dmg'] = [a_damage(rng) for _ in range(
                rng.pick([(8, 1), (2, 2)]))]
        elif 'b' in reqs[i] and rng.chance(.8):
            st['dmg'] = [a_damage(rng)]
            if rng.chance(.5):
                st['bend'] = builders.hurt(rng)
        elif 'num' in reqs[i] and rng.chance(.7):
            st['num'] = dict(reqs[i]['num'], n=a_number(rng)['n'],
                             len=a_number(rng)['len'],
                             tree=a_number(rng)['tree'])
        if rng.chance(.1):
            st['net'] = gen.any_net(rng)
        if rng.chance(.15):
            st['int'] = rng.random()
        if rng.chance(.08):
            st['lost'] = 1
        steps.append(st)
    return dict(reqs=reqs, steps=steps)


def lib_build(mut, seq):
    from sim import lib
    return lib.Build((lambda: True) if mut else None, seq)


class Stop(BaseException):
    pass


def execute(sc, res):
    reqs = sc['reqs']
    refused = built = 0

    def call(x, net, st):
        'object or ["x", ...]'
        res.real_calls += 1
        lib.select(net)
        try:
            if 'int' in st:
                def act():
                    raise Stop()
                inj = trace.Injector(int(3 ** (st['int'] * 7)) - 1, act,
                                     'line')
                try:
                    return inj.run(lambda: lib.ev(x)), None
                except Stop:
                    res.fault('build_interrupted')
            return lib.ev(x), None
        except Exception as e:
            return None, lib.exc(e, True)

    def judge(x, net, st, what, label):
        nonlocal refused, built
        v = verdict(x, net)
        o, err = call(x, net, st)
        res.state(what, label, v[0], v[1] if v[0] != 'ok' else '')
        res.ev(what, label, net, v[0], err and err[1])
        if err is not None:
            refused += 1
            if v[0] == 'ok':
                res.fail('a well-formed request was refused', what=what,
                         net=net, damage=label, error=err)
            return
        built += 1
        if v[0] == 'bad':
            res.fail('a malformed request was built', what=what, net=net,
                     damage=label, why=v[1], got=o.hex())
        if v[0] != 'ok':
            return
        compare(o, *v[1:], net, what, label)

    def compare(o, kind, rec, net, what, label):
        if kind in wire.TXK:
            raw = model.ser(rec)
            ok = (o.to_bytes() == raw and lib.read(o, kind) == lib.want(rec)
                  and lib.got_ids(o) == model.ids(rec, net, raw))
        elif kind == 'dwit':
            raw = raw_of(kind, rec)
            ok = o.to_bytes() == raw
        else:
            raw = wire.part_raw(kind, rec)
            ok = (o.to_bytes() == raw and wire.part_read(o, kind)
                  == wire.part_want(kind, rec))
        if not ok or type(o) is not lib.cls(kind):
            res.fail('built something else', what=what, net=net,
                     damage=label, got=o.hex(), want=raw.hex())

    def builder(fn, p, net, st, label):
        nonlocal refused, built
        try:
            v = ['ok', builders.want(fn, p, net, Bad, Open, leaf, verdict)]
        except Bad as e:
            v = ['bad', str(e)]
        except Open as e:
            v = ['open', str(e)]
        o, err = call(builders.expr(fn, p), net, st)
        res.state(fn, label, v[0], v[1] if v[0] != 'ok' else '')
        res.ev('builder', fn, label, net, v[0], err and err[1])
        if err is not None:
            refused += 1
            if v[0] == 'ok':
                res.fail('a well-formed request was refused', what=fn,
                         net=net, damage=label, error=err)
            return
        built += 1
        if v[0] == 'bad':
            res.fail('a malformed request was built', what=fn, net=net,
                     damage=label, why=v[1], got=lib.hx(o)[:400])
        elif v[0] == 'ok' and isinstance(v[1], bytes):
            if lib.hx(o) != v[1].hex():
                res.fail('built something else', what=fn, net=net,
                         damage=label, got=lib.hx(o), want=v[1].hex())
        elif v[0] == 'ok':
            compare(o, *v[1], net, fn, label)

    def number(d, net, st):
        nonlocal refused, built
        x, want = number_expr(d, net)
        if x is None:
            return
        o, err = call(x, net, st)
        res.ev('number', d['fn'], net, d['n'], err and err[1])
        res.state('number', d['fn'], want is None, d['n'].bit_length())
        if err is not None:
            refused += 1
            if want is not None:
                res.fail('a number that fits was refused', what=d['fn'],
                         net=net, n=d['n'], error=err)
        else:
            built += 1
            got = lib.hx(o)
            if want is None or got != want.hex():
                res.fail('a number was written wrong', what=d['fn'], net=net,
                         n=d['n'], got=got, want=want and want.hex())

    for st in sc['steps']:
        if st['i'] >= len(reqs):
            continue
        r = reqs[st['i']]
        net = st.get('net', r['net'])
        res.simtime += 10
        if 'lost' in st:
            res.fault('request_lost')
            continue
        if net != r['net']:
            res.fault('wrong_network')
        if 'num' in r:
            if 'num' in st:
                res.fault('number_damaged')
            number(st.get('num', r['num']), net, st)
        elif 'b' in r:
            fn, p = r['b']
            label = 'none'
            if 'bend' in st:
                p, label = builders.bend(p, st['bend'])
            elif st.get('dmg'):
                w, label = damage({'f': '', 'a': [v for _, v in p]},
                                  st['dmg'][0])
                p = [[n, v] for (n, _), v in zip(p, w['a'])]
            if label != 'none':
                res.fault('request_damaged')
            builder(fn, p, net, st, label)
        else:
            x, label = r['x'], 'none'
            for d in st.get('dmg', ()):
                x, w = damage(x, d)
                label = w if label == 'none' else label + '+' + w
            if label != 'none':
                res.fault('request_damaged')
            judge(x, net, st, KIND[r['x']['f']], label)
        if res.violations:
            break
    if not res.violations:
        for r in reqs:
            if 'num' in r:
                number(r['num'], r['net'], {})
            elif 'b' in r:
                builder(*r['b'], r['net'], {}, 'none')
            else:
                judge(r['x'], r['net'], {}, KIND[r['x']['f']], 'none')
    res.nontrivial = bool(refused and built)
