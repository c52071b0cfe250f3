'''Independent reference models.

Nothing in this file imports the code under test. Transactions are plain JSON
dicts ("mtx") whose leaves are hex strings; everything is computed from the
public format descriptions (bitcoin wire format, BIP143, BIP173, cashaddr,
ZIP143, ZIP243, the Decred transaction format, the BLAKE submission).
'''
import hashlib
import json
import os

H = bytes.fromhex
HERE = os.path.dirname(os.path.abspath(__file__))

with open(os.path.join(HERE, 'netparams.json')) as _f:
    NETS = json.load(_f)
NET_NAMES = sorted(NETS)


def fam_of(net):
    'transaction family native to a network'
    if 'decred' in net:
        return 'dcr'
    if 'sprout' in net:
        return 'spr'
    if 'overwinter' in net:
        return 'ow'
    if 'sapling' in net:
        return 'sap'
    return 'btc'


# ---------------------------------------------------------------- BLAKE

def _isqrt_frac(n, bits):
    'first `bits` bits of the fractional part of sqrt(n)'
    import math
    r = math.isqrt(n << (2 * bits))
    return r & ((1 << bits) - 1)


def _pi_frac(bits):
    'first `bits` bits of the fractional part of pi (Machin)'
    guard = 64
    one = 1 << (bits + guard)

    def arctan_inv(x):
        total = term = one // x
        n, x2, sign = 3, x * x, -1
        while term:
            term //= x2
            total += sign * (term // n)
            sign, n = -sign, n + 2
        return total
    pi = 4 * (4 * arctan_inv(5) - arctan_inv(239))
    return (pi >> guard) & ((1 << bits) - 1)


_PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53]
_S64 = [_isqrt_frac(p, 64) for p in _PRIMES]
_IV = {256: [x >> 32 for x in _S64[:8]],
       224: [x & 0xffffffff for x in _S64[8:]],
       512: _S64[:8],
       384: _S64[8:]}
_PI = _pi_frac(1024)
_C64 = [(_PI >> (1024 - 64 * (i + 1))) & (2 ** 64 - 1) for i in range(16)]
_C32 = [(_PI >> (1024 - 32 * (i + 1))) & (2 ** 32 - 1) for i in range(16)]
_SIGMA = [[int(c, 16) for c in row] for row in (
    '0123456789abcdef', 'ea489fd61c02b753', 'b8c052fdae367194',
    '7931dcbe265a40f8', '905724afe1bc683d', '2c6a0b834d75fe19',
    'c51fed4a0763928b', 'db7ec13950f4862a', '6fe9b308c2d714a5',
    'a2847615fb9e3cd0')]


def blake(bits, data, salt=b''):
    'one-shot BLAKE-`bits` of data, with an optional salt'
    wide = bits > 256
    wb = 8 if wide else 4
    w = wb * 8
    mask = (1 << w) - 1
    bs = 16 * wb
    rounds = 16 if wide else 14
    r1, r2, r3, r4 = (32, 25, 16, 11) if wide else (16, 12, 8, 7)
    C = _C64 if wide else _C32
    h = list(_IV[bits])
    salt = salt[-4 * wb:] if len(salt) > 4 * wb else salt.rjust(4 * wb, b'\0')
    s = [int.from_bytes(salt[i * wb:(i + 1) * wb], 'big') for i in range(4)]
    n = len(data) * 8
    lenb = 2 * wb
    pad = b'\x80' + b'\0' * ((bs - lenb - 1 - len(data) - 1) % bs)
    tail = b'\x01' if bits in (256, 512) else b'\0'
    if (len(data) + 1) % bs == bs - lenb:   # one byte of padding in all
        msg = data + bytes([0x80 | tail[0]])
    else:
        msg = data + pad + tail
    msg += n.to_bytes(lenb, 'big')
    assert len(msg) % bs == 0
    for b in range(len(msg) // bs):
        block = msg[b * bs:(b + 1) * bs]
        m = [int.from_bytes(block[i * wb:(i + 1) * wb], 'big')
             for i in range(16)]
        # t counts message bits up to this block; 0 if it holds none
        t = 0 if b * bs * 8 >= n else min(n, (b + 1) * bs * 8)
        v = h + [s[i] ^ C[i] for i in range(4)] + C[4:8]
        v[12] ^= t & mask
        v[13] ^= t & mask
        v[14] ^= (t >> w) & mask
        v[15] ^= (t >> w) & mask
        for r in range(rounds):
            sg = _SIGMA[r % 10]
            for i, (a, bb, c, d) in enumerate((
                    (0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14),
                    (3, 7, 11, 15), (0, 5, 10, 15), (1, 6, 11, 12),
                    (2, 7, 8, 13), (3, 4, 9, 14))):
                j, k = sg[2 * i], sg[2 * i + 1]
                va = (v[a] + v[bb] + (m[j] ^ C[k])) & mask
                x = v[d] ^ va
                vd = ((x >> r1) | (x << (w - r1))) & mask
                vc = (v[c] + vd) & mask
                x = v[bb] ^ vc
                vb = ((x >> r2) | (x << (w - r2))) & mask
                va = (va + vb + (m[k] ^ C[j])) & mask
                x = vd ^ va
                vd = ((x >> r3) | (x << (w - r3))) & mask
                vc = (vc + vd) & mask
                x = vb ^ vc
                vb = ((x >> r4) | (x << (w - r4))) & mask
                v[a], v[bb], v[c], v[d] = va, vb, vc, vd
        h = [h[i] ^ s[i & 3] ^ v[i] ^ v[i + 8] for i in range(8)]
    return b''.join(x.to_bytes(wb, 'big') for x in h)[:bits // 8]


# ---------------------------------------------------------------- hashes

# hashlib objects captured before any fault wrapper is installed
_sha256 = hashlib.sha256
_new = hashlib.new
_blake2b = hashlib.blake2b
_blake2s = hashlib.blake2s


def sha256(b):
    return _sha256(b).digest()


def rmd160(b):
    h = _new('ripemd160')
    h.update(b)
    return h.digest()


def hash256(b, net):
    if 'decred' in net:
        return blake(256, blake(256, b))
    return sha256(sha256(b))


def hash160(b, net):
    return rmd160(blake(256, b) if 'decred' in net else sha256(b))


def b2b(b, person):
    return _blake2b(b, digest_size=32, person=person).digest()


# ---------------------------------------------------------------- wire format

class Bad(Exception):
    'not an encoding of the requested kind'


def varint(n):
    if n < 0xfd:
        return bytes([n])
    if n <= 0xffff:
        return b'\xfd' + n.to_bytes(2, 'little')
    if n <= 0xffffffff:
        return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')


class Rd:
    def __init__(self, data, pos=0):
        self.d, self.p = bytes(data), pos

    def take(self, n):
        if n > len(self.d) - self.p:
            raise Bad('short')
        r = self.d[self.p:self.p + n]
        self.p += n
        return r

    def hx(self, n):
        return self.take(n).hex()

    def varint(self, compact=True):
        f = self.take(1)[0]
        if f < 0xfd:
            return f
        n = int.from_bytes(self.take({0xfd: 2, 0xfe: 4, 0xff: 8}[f]),
                           'little')
        if compact and n < {0xfd: 0xfd, 0xfe: 0x10000,
                            0xff: 0x100000000}[f]:
            raise Bad('non-compact')
        return n

    def left(self):
        return len(self.d) - self.p


# fixed layouts: (field, length) lists
JS_S = [('vold', 8), ('vnew', 8), ('anchor', 32), ('nulls', 64),
        ('comms', 64), ('epk', 32), ('seed', 32), ('vmacs', 64),
        ('proof', 296), ('notes', 1202)]
JS_G = [(n, 192 if n == 'proof' else k) for n, k in JS_S]
SS = [('cv', 32), ('anchor', 32), ('null', 32), ('rk', 32), ('proof', 192),
      ('sig', 64)]
SO = [('cv', 32), ('cmu', 32), ('epk', 32), ('enc', 580), ('out', 80),
      ('proof', 192)]
OUTPOINT = [('txid', 32), ('index', 4)]
DOUTPOINT = [('txid', 32), ('index', 4), ('tree', 1)]
PROOF_S = [('a', 33), ('a2', 33), ('b', 65), ('b2', 33), ('c', 33),
           ('c2', 33), ('k', 33), ('h', 33)]
PROOF_G = [('a', 48), ('b', 96), ('c', 48)]


def ser_fixed(layout, m):
    return b''.join(H(m[f]) for f, _ in layout)


def rd_fixed(layout, r):
    return {f: r.hx(n) for f, n in layout}


def _in(m):
    s = H(m['stack']) + H(m['redeem'])
    return H(m['txid']) + H(m['index']) + varint(len(s)) + s + H(m['seq'])


def _rin(r):
    m = rd_fixed(OUTPOINT, r)
    m['sig'] = r.hx(r.varint())
    m['seq'] = r.hx(4)
    return m


def _out(m):
    s = H(m['script'])
    return H(m['value']) + varint(len(s)) + s


def _rout(r):
    v = r.hx(8)
    return dict(value=v, script=r.hx(r.varint()))


def _item(h):
    b = H(h)
    return varint(len(b)) + b


def _ritem(r):
    return r.hx(r.varint())


def _wit(items):
    return varint(len(items)) + b''.join(_item(i) for i in items)


def _rwit(r):
    n = r.varint()
    if n > r.left():
        raise Bad('count')
    return [_ritem(r) for _ in range(n)]


def _din(m):
    return H(m['txid']) + H(m['index']) + H(m['tree']) + H(m['seq'])


def _rdin(r):
    m = rd_fixed(DOUTPOINT, r)
    m['seq'] = r.hx(4)
    return m


def _dout(m):
    s = H(m['script'])
    return H(m['value']) + H(m['ver']) + varint(len(s)) + s


def _rdout(r):
    m = dict(value=r.hx(8), ver=r.hx(2))
    m['script'] = r.hx(r.varint())
    return m


def _dwit(m):
    s = H(m['stack']) + H(m['redeem'])
    return (H(m['value']) + H(m['height']) + H(m['index'])
            + varint(len(s)) + s)


def _vec(f, xs):
    return varint(len(xs)) + b''.join(f(x) for x in xs)


def _rvec(f, r):
    n = r.varint()
    if n > r.left():
        raise Bad('count')
    return [f(r) for _ in range(n)]


OW_HEAD = H('03000080') + H('7082c403')
SAP_HEAD = H('04000080') + H('85202f89')


def ser(m):
    'encoding of a whole transaction'
    f = m['fam']
    if f == 'btc':
        b = H(m['version'])
        if m['flag']:
            b += b'\0\1'
        b += _vec(_in, m['ins']) + _vec(_out, m['outs'])
        for w in m['wits'] or []:
            b += _wit(w)
        return b + H(m['lock'])
    if f == 'spr':
        b = (H(m['version']) + _vec(_in, m['ins']) + _vec(_out, m['outs'])
             + H(m['lock']))
        if m['version'] == '02000000':
            b += _vec(lambda j: ser_fixed(JS_S, j), m['js'])
            b += H(m['jspub']) + H(m['jssig'])
        return b
    if f == 'ow':
        b = (OW_HEAD + _vec(_in, m['ins']) + _vec(_out, m['outs'])
             + H(m['lock']) + H(m['expiry'])
             + _vec(lambda j: ser_fixed(JS_S, j), m['js']))
        if m['js']:
            b += H(m['jspub']) + H(m['jssig'])
        return b
    if f == 'sap':
        b = (SAP_HEAD + _vec(_in, m['ins']) + _vec(_out, m['outs'])
             + H(m['lock']) + H(m['expiry']) + H(m['vbal'])
             + _vec(lambda j: ser_fixed(SS, j), m['ss'])
             + _vec(lambda j: ser_fixed(SO, j), m['so'])
             + _vec(lambda j: ser_fixed(JS_G, j), m['js']))
        if m['js']:
            b += H(m['jspub']) + H(m['jssig'])
        if m['ss'] or m['so']:
            b += H(m['bsig'])
        return b
    if f == 'dcr':
        return (H(m['version']) + _vec(_din, m['ins'])
                + _vec(_dout, m['outs']) + H(m['lock']) + H(m['expiry'])
                + _vec(_dwit, m['wits']))
    raise KeyError(f)


def parse(fam, data):
    '''Strict parse of a transaction off the front of data.
    Returns (mtx, length consumed) or raises Bad. Inputs carry `sig` (the
    whole script sig) instead of stack/redeem.'''
    r = Rd(data)
    if fam == 'btc':
        m = dict(fam='btc', version=r.hx(4))
        m['flag'] = r.d[4:6] == b'\0\1'
        if m['flag']:
            r.take(2)
        m['ins'] = _rvec(_rin, r)
        m['outs'] = _rvec(_rout, r)
        if not m['ins'] or not m['outs']:
            raise Bad('empty vector')
        m['wits'] = []
        if m['flag'] and r.left() > 4:
            m['wits'] = [_rwit(r) for _ in m['ins']]
        m['lock'] = r.hx(4)
    elif fam == 'spr':
        m = dict(fam='spr', version=r.hx(4))
        if m['version'] not in ('01000000', '02000000'):
            raise Bad('version')
        m['ins'] = _rvec(_rin, r)
        m['outs'] = _rvec(_rout, r)
        m['lock'] = r.hx(4)
        m['js'], m['jspub'], m['jssig'] = [], None, None
        if m['version'] == '02000000':
            m['js'] = _rvec(lambda q: rd_fixed(JS_S, q), r)
            m['jspub'] = r.hx(32)
            m['jssig'] = r.hx(64) if r.left() else ''
        elif not m['ins']:
            raise Bad('no inputs')
    elif fam == 'ow':
        if r.take(8) != OW_HEAD:
            raise Bad('header')
        m = dict(fam='ow', ins=_rvec(_rin, r), outs=_rvec(_rout, r),
                 lock=r.hx(4), expiry=r.hx(4))
        m['js'] = _rvec(lambda q: rd_fixed(JS_S, q), r)
        m['jspub'] = m['jssig'] = None
        if m['js']:
            m['jspub'], m['jssig'] = r.hx(32), r.hx(64)
    elif fam == 'sap':
        if r.take(8) != SAP_HEAD:
            raise Bad('header')
        m = dict(fam='sap', ins=_rvec(_rin, r), outs=_rvec(_rout, r),
                 lock=r.hx(4), expiry=r.hx(4), vbal=r.hx(8))
        m['ss'] = _rvec(lambda q: rd_fixed(SS, q), r)
        m['so'] = _rvec(lambda q: rd_fixed(SO, q), r)
        m['js'] = _rvec(lambda q: rd_fixed(JS_G, q), r)
        m['jspub'] = m['jssig'] = m['bsig'] = None
        if m['js']:
            m['jspub'], m['jssig'] = r.hx(32), r.hx(64)
        if m['ss'] or m['so']:
            m['bsig'] = r.hx(64)
    else:
        raise Bad('no decoder for ' + fam)
    return m, r.p


def norm(m):
    'form of an mtx as a parser sees it: one script sig, wits never None'
    m = dict(m)
    if m['fam'] == 'dcr':
        return m
    m['ins'] = [dict(txid=i['txid'], index=i['index'],
                     sig=i['sig'] if 'sig' in i else i['stack'] + i['redeem'],
                     seq=i['seq']) for i in m['ins']]
    if m['fam'] == 'btc':
        m['wits'] = m['wits'] or []
    return m


# parts: kind -> (serializer of a part dict, parser)
def _fx(layout):
    return (lambda m: ser_fixed(layout, m)), (lambda r: rd_fixed(layout, r))


PARTS = {
    'outpoint': _fx(OUTPOINT), 'txin': (_in, _rin), 'txout': (_out, _rout),
    'item': (_item, _ritem), 'wit': (_wit, _rwit),
    'doutpoint': _fx(DOUTPOINT), 'dtxin': (_din, _rdin),
    'dtxout': (_dout, _rdout),
    'sproof': _fx(PROOF_S), 'gproof': _fx(PROOF_G),
    'sjs': _fx(JS_S), 'gjs': _fx(JS_G), 'ss': _fx(SS), 'so': _fx(SO),
}


# ---------------------------------------------------------------- ids, fees

def le(h):
    return int.from_bytes(H(h), 'little')


def sle(h):
    return int.from_bytes(H(h), 'little', signed=True)


def no_witness(m):
    b = H(m['version']) + _vec(_in2, m['ins']) + _vec(_out, m['outs'])
    return b + H(m['lock'])


def _in2(m):
    if 'sig' in m:
        s = H(m['sig'])
        return H(m['txid']) + H(m['index']) + varint(len(s)) + s + H(m['seq'])
    return _in(m)


def dcr_prefix(m):
    return (H(m['version'])[:2] + b'\1\0' + _vec(_din, m['ins'])
            + _vec(_dout, m['outs']) + H(m['lock']) + H(m['expiry']))


def dcr_witness(m):
    return H(m['version'])[:2] + b'\2\0' + _vec(_dwit, m['wits'])


def ids(m, net, raw=None):
    '''ids as hex: tx_id_le, tx_id, and wtx ids for flagged transactions,
    h_sigs and primary inputs of joinsplits'''
    raw = ser(m) if raw is None else raw
    f = m['fam']
    if f == 'dcr':
        i = blake(256, dcr_prefix(m))
        return dict(tx_id_le=i.hex(), tx_id=i[::-1].hex())
    if f == 'btc' and m['flag']:
        i, w = hash256(no_witness(m), net), hash256(raw, net)
        return dict(tx_id_le=i.hex(), tx_id=i[::-1].hex(),
                    wtx_id_le=w.hex(), wtx_id=w[::-1].hex())
    i = hash256(raw, net)
    d = dict(tx_id_le=i.hex(), tx_id=i[::-1].hex())
    if m.get('js'):
        d.update(hsigs=hsigs(m), primary_inputs=primary_inputs(m))
    return d


def fee(m, input_values):
    if m['fam'] == 'dcr':
        return (sum(le(w['value']) for w in m['wits'])
                - sum(le(o['value']) for o in m['outs']))
    t = sum(input_values) - sum(le(o['value']) for o in m['outs'])
    for j in m.get('js') or []:
        t += le(j['vnew']) - le(j['vold'])
    if m['fam'] == 'sap':
        t += sle(m['vbal'])
    return t


def hsigs(m):
    return [b2b(H(j['seed']) + H(j['nulls']) + H(m['jspub']),
                b'ZcashComputehSig').hex() for j in m.get('js') or []]


def primary_inputs(m):
    return [j['anchor'] + j['nulls'] + j['comms'] + j['vold'] + j['vnew']
            + h + j['vmacs'] for j, h in zip(m.get('js') or [], hsigs(m))]


# ---------------------------------------------------------------- sighash

ALL, SINGLE, ACP, FORK = 1, 3, 0x80, 0x40


def _strip(script):
    r = Rd(script)
    r.varint(compact=False)
    return script[r.p:]


def _legacy_copy(m, index, code, typ, acp):
    'bytes of the modified copy for the original signature hash'
    ins = []
    for k, i in enumerate(m['ins']):
        s = code if k == index else b''
        seq = i['seq'] if (k == index or typ == ALL) else '00000000'
        ins.append(H(i['txid']) + H(i['index']) + varint(len(s)) + s + H(seq))
    if acp:
        ins = [ins[index]]
    if typ == ALL:
        outs = [_out(o) for o in m['outs']]
    else:
        outs = [b'\xff' * 8 + b'\0'] * index + [_out(m['outs'][index])]
    return (H(m['version']) + varint(len(ins)) + b''.join(ins)
            + varint(len(outs)) + b''.join(outs) + H(m['lock']))


def sighash(m, net, index, typ, acp, script, value, joinsplit=False):
    '''The digest to sign (bytes), or None where it must be refused.
    `script` is length-prepended, except for Decred.'''
    f = m['fam']
    if typ == SINGLE and index >= len(m['outs']):
        return None
    if f == 'dcr' and index >= len(m['wits']):
        return None     # nowhere to put the script being signed
    tb = (typ | (ACP if acp else 0))
    if f == 'btc':
        fork = NETS[net]['forkid']
        if fork is not None or m['flag']:
            if fork is not None:
                tb |= FORK | (fork << 8)
            i = m['ins'][index]
            z = b'\0' * 32
            hp = z if acp else hash256(b''.join(
                H(x['txid']) + H(x['index']) for x in m['ins']), net)
            hs = z if acp or typ == SINGLE else hash256(
                b''.join(H(x['seq']) for x in m['ins']), net)
            ho = hash256(b''.join(_out(o) for o in m['outs']) if typ == ALL
                         else _out(m['outs'][index]), net)
            return hash256(
                H(m['version']) + hp + hs + H(i['txid']) + H(i['index'])
                + script + value + H(i['seq']) + ho + H(m['lock'])
                + tb.to_bytes(4, 'little'), net)
        return hash256(_legacy_copy(m, index, _strip(script), typ, acp)
                       + tb.to_bytes(4, 'little'), net)
    if f == 'spr':
        if m['js'] and (acp or typ == SINGLE):
            return None
        if not m['ins']:
            c = (H(m['version']) + varint(0) + _vec(_out, m['outs'])
                 + H(m['lock']))
            if typ == SINGLE or acp:
                return None
        else:
            c = _legacy_copy(m, index, _strip(script), typ, acp)
        if m['version'] == '02000000':
            c += _vec(lambda j: ser_fixed(JS_S, j), m['js']) + H(m['jspub'])
        return hash256(c + tb.to_bytes(4, 'little'), net)
    if f in ('ow', 'sap'):
        if joinsplit and acp:
            return None
        z = b'\0' * 32
        hp = z if acp else b2b(b''.join(
            H(x['txid']) + H(x['index']) for x in m['ins']),
            b'ZcashPrevoutHash')
        hs = z if acp or typ == SINGLE else b2b(
            b''.join(H(x['seq']) for x in m['ins']), b'ZcashSequencHash')
        ho = b2b(b''.join(_out(o) for o in m['outs']) if typ == ALL
                 else _out(m['outs'][index]), b'ZcashOutputsHash')
        lay = JS_S if f == 'ow' else JS_G
        hj = z if not m['js'] else b2b(
            b''.join(ser_fixed(lay, j) for j in m['js']) + H(m['jspub']),
            b'ZcashJSplitsHash')
        b = (OW_HEAD if f == 'ow' else SAP_HEAD) + hp + hs + ho + hj
        if f == 'sap':
            b += z if not m['ss'] else b2b(b''.join(
                ser_fixed(SS[:-1], s) for s in m['ss']), b'ZcashSSpendsHash')
            b += z if not m['so'] else b2b(b''.join(
                ser_fixed(SO, s) for s in m['so']), b'ZcashSOutputHash')
        b += H(m['lock']) + H(m['expiry'])
        if f == 'sap':
            b += H(m['vbal'])
        b += tb.to_bytes(4, 'little')
        if not joinsplit:
            i = m['ins'][index]
            b += H(i['txid']) + H(i['index']) + script + value + H(i['seq'])
        branch = H('191ba85b') if f == 'ow' else H('bb09b876')
        return b2b(b, b'ZcashSigHash' + branch)
    if f == 'dcr':
        ins = []
        for k, i in enumerate(m['ins']):
            seq = i['seq'] if (k == index or typ == ALL) else '00000000'
            ins.append(dict(i, seq=seq))
        outs = m['outs']
        if typ == SINGLE:
            outs = ([dict(value='ff' * 8, ver=o['ver'], script='')
                     for o in outs[:index]] + [outs[index]])
        wits = [script if k == index else b'' for k in range(len(m['wits']))]
        if acp:
            ins, wits = [ins[index]], [wits[index]]
        p = dcr_prefix(dict(m, ins=ins, outs=outs))
        w = (H(m['version'])[:2] + b'\3\0' + varint(len(wits))
             + b''.join(varint(len(x)) + x for x in wits))
        return blake(256, tb.to_bytes(4, 'little') + blake(256, p)
                     + blake(256, w))
    raise KeyError(f)


# ---------------------------------------------------------------- addresses

B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
B32 = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'


def b58enc(b):
    n = int.from_bytes(b, 'big')
    s = ''
    while n:
        n, r = divmod(n, 58)
        s = B58[r] + s
    return '1' * (len(b) - len(b.lstrip(b'\0'))) + s


def b58dec(s):
    n = 0
    for c in s:
        i = B58.find(c)
        if i < 0:
            return None
        n = n * 58 + i
    z = len(s) - len(s.lstrip('1'))
    return b'\0' * z + n.to_bytes((n.bit_length() + 7) // 8, 'big')


def b58check_enc(b, net):
    return b58enc(b + hash256(b, net)[:4])


def b58check_dec(s, net):
    b = b58dec(s)
    if b is None or len(b) < 4 or hash256(b[:-4], net)[:4] != b[-4:]:
        return None
    return b[:-4]


def _regroup(data, f, t, pad):
    acc = bits = 0
    out = []
    for v in data:
        acc = (acc << f) | v
        bits += f
        while bits >= t:
            bits -= t
            out.append((acc >> bits) & ((1 << t) - 1))
        acc &= (1 << bits) - 1
    if pad:
        if bits:
            out.append((acc << (t - bits)) & ((1 << t) - 1))
    elif bits >= f or acc:
        return None
    return out


def _b32poly(vals):
    c = 1
    for v in vals:
        t = c >> 25
        c = ((c & 0x1ffffff) << 5) ^ v
        for i, g in enumerate((0x3b6a57b2, 0x26508e6d, 0x1ea119fa,
                               0x3d4233dd, 0x2a1462b3)):
            if (t >> i) & 1:
                c ^= g
    return c


def _hrpx(h):
    return [ord(c) >> 5 for c in h] + [0] + [ord(c) & 31 for c in h]


def bech32_enc(hrp, ver, prog):
    d = [ver] + _regroup(prog, 8, 5, True)
    p = _b32poly(_hrpx(hrp) + d + [0] * 6) ^ 1
    d += [(p >> 5 * (5 - i)) & 31 for i in range(6)]
    return hrp + '1' + ''.join(B32[x] for x in d)


def bech32_dec(hrp, s):
    '(version, program) or None'
    if s.lower() != s and s.upper() != s:
        return None
    if any(not 33 <= ord(c) <= 126 for c in s) or len(s) > 90:
        return None
    s = s.lower()
    p = s.rfind('1')
    if p < 1 or p + 7 > len(s) or s[:p] != hrp:
        return None
    d = [B32.find(c) for c in s[p + 1:]]
    if min(d) < 0 or _b32poly(_hrpx(hrp) + d) != 1:
        return None
    d = d[:-6]
    if not d or d[0] > 16:
        return None
    prog = _regroup(d[1:], 5, 8, False)
    if prog is None or not 2 <= len(prog) <= 40:
        return None
    if d[0] == 0 and len(prog) not in (20, 32):
        return None
    return d[0], bytes(prog)


def _cpoly(vals):
    c = 1
    for v in vals:
        t = c >> 35
        c = ((c & 0x07ffffffff) << 5) ^ v
        for i, g in enumerate((0x98f2bc8e61, 0x79b76d99e2, 0xf33e5fb3c4,
                               0xae2eabe2a8, 0x1e4f43e470)):
            if (t >> i) & 1:
                c ^= g
    return c ^ 1


def cash_enc(prefix, payload):
    d = _regroup(payload, 8, 5, True)
    pe = [ord(c) & 31 for c in prefix] + [0]
    p = _cpoly(pe + d + [0] * 8)
    d += [(p >> 5 * (7 - i)) & 31 for i in range(8)]
    return prefix + ':' + ''.join(B32[x] for x in d)


def cash_dec(prefix, s):
    'payload bytes (version byte + hash) or None'
    if not s.startswith(prefix + ':'):
        return None
    d = [B32.find(c) for c in s[len(prefix) + 1:]]
    if len(d) < 8 or min(d) < 0:
        return None
    if _cpoly([ord(c) & 31 for c in prefix] + [0] + d) != 0:
        return None
    d = d[:-8]
    p = _regroup(d, 5, 8, False)
    return None if p is None else bytes(p)


def kinds(net):
    'address kinds a network offers'
    n = NETS[net]
    ks = ['p2pkh', 'p2sh']
    if n['cash_prefix'] is not None:
        ks += ['cash_pkh', 'cash_sh']
    if n['segwit'] and (n['segenc'] == 'base58' or n['hrp'] is not None):
        ks += ['p2wpkh', 'p2wsh']
    return ks


def make_address(net, kind, h):
    n = NETS[net]
    if kind == 'p2pkh':
        return b58check_enc(H(n['p2pkh']) + h, net)
    if kind == 'p2sh':
        return b58check_enc(H(n['p2sh']) + h, net)
    if kind == 'cash_pkh':
        return cash_enc(n['cash_prefix'], b'\0' + h)
    if kind == 'cash_sh':
        return cash_enc(n['cash_prefix'], b'\x08' + h)
    if n['segenc'] == 'base58':
        pre = n['p2wpkh'] if kind == 'p2wpkh' else n['p2wsh']
        return b58check_enc(H(pre) + h, net)
    return bech32_enc(n['hrp'], 0, h)


def script_for(kind, h):
    if kind in ('p2pkh', 'cash_pkh'):
        return H('76a914') + h + H('88ac')
    if kind in ('p2sh', 'cash_sh'):
        return H('a914') + h + H('87')
    return (H('0014') if kind == 'p2wpkh' else H('0020')) + h


def destination(net, s):
    '''What address text s means on a network: set of acceptable
    (kind class, hash) readings; empty if it is no address there.'''
    n = NETS[net]
    got = []
    b = b58check_dec(s, net)
    if b is not None:
        pk, sh = H(n['p2pkh']), H(n['p2sh'])
        if b[:len(pk)] == pk and len(b) == len(pk) + 20:
            got.append(('p2pkh', b[len(pk):]))
        if b[:len(sh)] == sh and len(b) == len(sh) + 20:
            got.append(('p2sh', b[len(sh):]))
        if n['segenc'] == 'base58' and n['segwit']:
            if b[:2] == b'\0\x14' and len(b) == 22:
                got.append(('p2wpkh', b[2:]))
            if b[:2] == b'\0\x20' and len(b) == 34:
                got.append(('p2wsh', b[2:]))
    if n['segenc'] == 'bech32' and n['hrp'] is not None:
        r = bech32_dec(n['hrp'], s)
        if r is not None and r[0] == 0:
            got.append(('p2wpkh' if len(r[1]) == 20 else 'p2wsh', r[1]))
    if n['cash_prefix'] is not None:
        p = cash_dec(n['cash_prefix'], s)
        if p is not None and len(p) == 21 and p[0] in (0, 8):
            got.append(('p2pkh' if p[0] == 0 else 'p2sh', p[1:]))
    return got


# ---------------------------------------------------------------- validity

def sane(m):
    'is this a complete, legal record of a transaction?'
    def w(h, n):
        return h is not None and len(h) == 2 * n

    def fx(lay, xs):
        return all(w(x[f], n) for x in xs for f, n in lay)
    f = m['fam']
    d = f == 'dcr'
    ok = w(m['lock'], 4)
    ok &= fx(DOUTPOINT if d else OUTPOINT, m['ins'])
    ok &= all(w(i['seq'], 4) for i in m['ins'])
    ok &= all(w(o['value'], 8) for o in m['outs'])
    if d:
        ok &= all(w(o['ver'], 2) for o in m['outs'])
        ok &= all(w(x['value'], 8) and w(x['height'], 4)
                  and w(x['index'], 4) for x in m['wits'])
    for k, n in (('version', 4), ('expiry', 4), ('vbal', 8)):
        if k in m:
            ok &= w(m[k], n)
    if f in ('btc', 'dcr'):
        ok &= bool(m['ins'] and m['outs'])
    if f == 'btc' and m['flag']:
        ok &= not m['wits'] or len(m['wits']) == len(m['ins'])
    if f == 'spr' and m['version'] == '02000000':
        ok &= w(m['jspub'], 32) and m['jssig'] is not None and (
            m['jssig'] == '' or w(m['jssig'], 64))
    if f == 'spr' and m['version'] == '01000000':
        ok &= not m['js'] and bool(m['ins'])
    if f == 'spr':
        ok &= m['version'] in ('01000000', '02000000')
    if m.get('js'):
        ok &= fx(JS_G if f == 'sap' else JS_S, m['js'])
        if f != 'spr':
            ok &= w(m['jspub'], 32) and w(m['jssig'], 64)
    if f == 'sap':
        ok &= fx(SS, m['ss']) and fx(SO, m['so'])
        if m['ss'] or m['so']:
            ok &= w(m['bsig'], 64)
        else:
            ok &= sle(m['vbal']) == 0
    if f in ('ow', 'sap'):
        ok &= bool(m['ins'] or m['js'] or m.get('ss'))
        ok &= le(m['expiry']) < 500000000
        ok &= len(ser(m)) <= 100000
    return bool(ok)
