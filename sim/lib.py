'''The library under test, behind seams.

Importing this module imports riemann from RIEMANN_REPO (default /repo), with
hashlib and threading patched first so the simulator can fail the hash
implementation and schedule threads. Also: evaluation of JSON call
expressions and canonical dumps of whatever comes back.
'''
import hashlib
import os
import re
import sys
import time

from sim import core     # noqa: F401 (binds the real clock first)
from sim import model   # captures the unwrapped hash functions
from sim import trace

REPO = trace.REPO


# ------------------------------------------------------------ hash seam

class HashFault:
    'armed by a check: fail the n-th use of the hash implementation'
    countdown = None
    make = None
    fired = 0
    uses = 0

    @classmethod
    def arm(cls, n, make):
        cls.countdown, cls.make, cls.fired = n, make, 0

    @classmethod
    def disarm(cls):
        cls.countdown = None

    @classmethod
    def hit(cls, name):
        cls.uses += 1
        if cls.countdown is not None:
            if cls.countdown == 0:
                cls.countdown = None
                cls.fired += 1
                raise cls.make(name)
            cls.countdown -= 1


class _Hash:
    'a hashlib object whose operations can fail'
    __slots__ = ('_h', '_n')

    def __init__(self, h, name):
        self._h, self._n = h, name

    def update(self, data):
        HashFault.hit(self._n)
        self._h.update(data)

    def digest(self, *a):
        HashFault.hit(self._n)
        return self._h.digest(*a)

    def hexdigest(self, *a):
        HashFault.hit(self._n)
        return self._h.hexdigest(*a)

    def copy(self):
        HashFault.hit(self._n)
        return _Hash(self._h.copy(), self._n)

    @property
    def name(self):
        return self._h.name

    @property
    def digest_size(self):
        return self._h.digest_size

    @property
    def block_size(self):
        return self._h.block_size


def _wrap(name, fn):
    def make(*a, **k):
        HashFault.hit(name)
        return _Hash(fn(*a, **k), name)
    make.__name__ = name
    return make


for _n in ('sha256', 'sha512', 'blake2b', 'blake2s', 'sha1', 'sha224',
           'sha384', 'md5'):
    setattr(hashlib, _n, _wrap(_n, getattr(hashlib, _n)))
_orig_new = hashlib.new


def _new(name, *a, **k):
    HashFault.hit(name)
    return _Hash(_orig_new(name, *a, **k), name)


hashlib.new = _new
trace.patch_threading()


class Clock:
    'the wall clock and timers library code would see'
    now = 1_600_000_000.0


time.time = lambda: Clock.now
time.time_ns = lambda: int(Clock.now * 10 ** 9)
time.monotonic = lambda: Clock.now
time.monotonic_ns = lambda: int(Clock.now * 10 ** 9)
time.perf_counter = lambda: Clock.now
time.sleep = lambda s: setattr(Clock, 'now', Clock.now + max(0, s))

sys.path.insert(0, REPO)
# compile the library from its sources: never trust a stale byte-code cache
_saved = sys.pycache_prefix, sys.dont_write_bytecode
sys.pycache_prefix, sys.dont_write_bytecode = '/nonexistent', True
import riemann                                          # noqa: E402
import riemann.simple                                   # noqa: E402
import riemann.utils                                    # noqa: E402
import riemann.blake256                                 # noqa: E402
import riemann.script.serialization                     # noqa: E402
import riemann.encoding.addresses                       # noqa: E402
import riemann.encoding.base58                          # noqa: E402
import riemann.encoding.bech32                          # noqa: E402
import riemann.encoding.cashaddr                        # noqa: E402
import riemann.networks.standard                        # noqa: E402
import riemann.tx                                       # noqa: E402
from riemann.tx import (decred, overwinter, sapling,    # noqa: E402
                        shared, sprout, tx, tx_builder, zcash_shared)

sys.pycache_prefix, sys.dont_write_bytecode = _saved
if not os.path.realpath(riemann.__file__).startswith(trace.ROOT):
    raise ImportError('riemann was not imported from ' + REPO)

MODULES = {
    'riemann': riemann, 'simple': riemann.simple, 'utils': riemann.utils,
    'blake256': riemann.blake256, 'ser': riemann.script.serialization,
    'addr': riemann.encoding.addresses, 'base58': riemann.encoding.base58,
    'bech32': riemann.encoding.bech32, 'cashaddr': riemann.encoding.cashaddr,
    'std': riemann.networks.standard, 'tx': tx, 'tb': tx_builder,
    'shared': shared, 'decred': decred, 'sprout': sprout,
    'overwinter': overwinter, 'sapling': sapling, 'zs': zcash_shared,
}

# kind of part -> (module, class)
CLASSES = {
    'outpoint': (tx, 'Outpoint'), 'txin': (tx, 'TxIn'),
    'txout': (tx, 'TxOut'), 'item': (tx, 'WitnessStackItem'),
    'wit': (tx, 'InputWitness'), 'varint': (shared, 'VarInt'),
    'doutpoint': (decred, 'DecredOutpoint'), 'dtxin': (decred, 'DecredTxIn'),
    'dtxout': (decred, 'DecredTxOut'),
    'dwit': (decred, 'DecredInputWitness'),
    'sproof': (zcash_shared, 'SproutZkproof'),
    'sjs': (zcash_shared, 'SproutJoinsplit'),
    'gproof': (sapling, 'SaplingZkproof'),
    'gjs': (sapling, 'SaplingJoinsplit'),
    'ss': (sapling, 'SaplingShieldedSpend'),
    'so': (sapling, 'SaplingShieldedOutput'),
    'btc': (tx, 'Tx'), 'dcr': (decred, 'DecredTx'),
    'spr': (sprout, 'SproutTx'), 'ow': (overwinter, 'OverwinterTx'),
    'sap': (sapling, 'SaplingTx'),
}
from sim.lib_paths import CLASS_PATH                    # noqa: E402


def cls(kind):
    m, c = CLASSES[kind]
    return getattr(m, c)


def select(name):
    riemann.select_network(name)


# ------------------------------------------------------------ canonical dumps

_ADDR = re.compile(r' at 0x[0-9a-f]+')


def exc(e, message=False):
    'canonical form of an exception'
    if message:
        return ['x', type(e).__name__, _ADDR.sub('', str(e))[:300]]
    return ['x', type(e).__name__]


def canon(o, depth=0):
    'canonical JSON-able dump of any value the library may return'
    if o is None or isinstance(o, (bool, int, str)):
        return o
    if isinstance(o, bytes):
        return ['b', o.hex()]
    if isinstance(o, bytearray):
        return ['ba', o.hex()]
    if isinstance(o, (list, tuple)):
        return ['l' if isinstance(o, list) else 't',
                [canon(x, depth + 1) for x in o]]
    if isinstance(o, dict):
        return ['d', sorted([str(k), canon(v, depth + 1)]
                            for k, v in o.items())]
    if isinstance(o, type):
        return ['cls', o.__name__]
    if isinstance(o, shared.ByteData):
        return ['o', type(o).__name__, o.to_bytes().hex(), fields(o, depth)]
    if isinstance(o, riemann.blake256.BLAKE):
        return ['blake', o.hashbitlen]
    if isinstance(o, float):
        return ['f', repr(o)]
    return ['?', type(o).__name__]


def public(o):
    'public data attribute names of an object'
    names = set(getattr(o, '__dict__', {}))
    for c in type(o).__mro__[:-1]:
        sl = c.__dict__.get('__slots__', ())
        names.update([sl] if isinstance(sl, str) else sl)
        for k, v in c.__dict__.items():
            if isinstance(v, property) or type(v).__name__ in (
                    'cached_property', 'member_descriptor'):
                names.add(k)
    return sorted(n for n in names if not n.startswith('_'))


_MISSING = object()


def attr(o, name):
    v = getattr(o, name, _MISSING)
    return None if v is _MISSING else v


def fields(o, depth=0):
    if depth > 8:
        return '...'
    return [[n, canon(attr(o, n), depth + 1)] for n in public(o)
            if not callable(attr(o, n))]


# ------------------------------------------------------------ expressions

class Refs:
    'values earlier steps of a session left behind'

    def __init__(self):
        self.v = {}


def resolve(path):
    head, _, rest = path.partition('.')
    o = MODULES[head]
    for p in rest.split('.') if rest else []:
        o = getattr(o, p)
    return o


MADE = []       # mutable values handed to the library, while collecting
COLLECT = [False]


def made(v):
    if COLLECT[0]:
        MADE.append(v)
    return v


def ev(x, refs=None):
    '''Evaluate a JSON expression.
    scalars are themselves; {'h':hex} bytes; {'ba':hex} bytearray;
    {'l':[..]} list; {'t':[..]} tuple; {'r':n} value of slot n;
    {'f':path,'a':[..],'k':{..}} call; {'m':name,'on':x,'a','k'} method call;
    {'g':name,'on':x} attribute; {'bd':hex} mutable ByteData'''
    if not isinstance(x, dict):
        if isinstance(x, list):
            return [ev(y, refs) for y in x]
        return x
    if 'h' in x:
        return bytes.fromhex(x['h'])
    if 'ba' in x:
        return made(bytearray.fromhex(x['ba']))
    if 'l' in x:
        return made([ev(y, refs) for y in x['l']])
    if 't' in x:
        return tuple(ev(y, refs) for y in x['t'])
    if 'r' in x:
        return refs[x['r']]
    if 'bd' in x:
        b = shared.ByteData()
        b += bytes.fromhex(x['bd'])
        return made(b)
    fn, a, k = prepare(x, refs)
    return fn(*a, **k)


def prepare(x, refs=None):
    '(callable, args, kwargs) of a call expression, arguments evaluated'
    a = [ev(y, refs) for y in x.get('a', ())]
    k = {n: ev(y, refs) for n, y in x.get('k', {}).items()}
    if 'f' in x:
        return resolve(x['f']), a, k
    on = ev(x['on'], refs)
    if 'm' in x:
        return getattr(on, x['m']), a, k
    if 'g' in x:
        return getattr, [on, x['g']], {}
    raise KeyError(str(x)[:80])


def inline(x, table):
    'replace {r:n} by the expression that made slot n'
    if isinstance(x, list):
        return [inline(y, table) for y in x]
    if isinstance(x, dict):
        if 'r' in x:
            return inline(table[x['r']], table)
        return {k: inline(v, table) for k, v in x.items()}
    return x


def outcome(x, refs=None, message=True):
    'evaluate and dump: value or exception'
    try:
        return ['v', canon(ev(x, refs))]
    except Exception as e:
        return exc(e, message)


# ------------------------------------------------------------ from mtx to calls

def B(h, mut=False):
    return {'ba': h} if mut else {'h': h}


class Build:
    '''call expressions that build what an mtx describes.
    mut(): whether the next byte string is passed as a bytearray'''

    def __init__(self, mut=None, seq='l'):
        self.mut = mut or (lambda: False)
        self.seq = seq

    def b(self, h):
        return B(h, self.mut())

    def s(self, items):
        return {self.seq: list(items)}

    def call(self, kind, *args):
        return {'f': CLASS_PATH[kind], 'a': list(args)}

    def outpoint(self, m):
        return self.call('outpoint', self.b(m['txid']), self.b(m['index']))

    def txin(self, m):
        return self.call('txin', self.outpoint(m), self.b(m['stack']),
                         self.b(m['redeem']), self.b(m['seq']))

    def txout(self, m):
        return self.call('txout', self.b(m['value']), self.b(m['script']))

    def item(self, h):
        return self.call('item', self.b(h))

    def wit(self, w):
        return self.call('wit', self.s(self.item(i) for i in w))

    def doutpoint(self, m):
        return self.call('doutpoint', self.b(m['txid']), self.b(m['index']),
                         self.b(m['tree']))

    def dtxin(self, m):
        return self.call('dtxin', self.doutpoint(m), self.b(m['seq']))

    def dtxout(self, m):
        return self.call('dtxout', self.b(m['value']), self.b(m['ver']),
                         self.b(m['script']))

    def dwit(self, m):
        return self.call('dwit', self.b(m['value']), self.b(m['height']),
                         self.b(m['index']), self.b(m['stack']),
                         self.b(m['redeem']))

    def sproof(self, m):
        return self.call('sproof', *[self.b(m[f]) for f, _ in model.PROOF_S])

    def gproof(self, m):
        return self.call('gproof', *[self.b(m[f]) for f, _ in model.PROOF_G])

    def _cut(self, layout, h):
        out, p = {}, 0
        for f, n in layout:
            out[f] = h[2 * p:2 * (p + n)]
            p += n
        return out

    def sjs(self, m):
        return self._js('sjs', m, self.sproof(
            self._cut(model.PROOF_S, m['proof'])))

    def gjs(self, m):
        return self._js('gjs', m, self.gproof(
            self._cut(model.PROOF_G, m['proof'])))

    def _js(self, kind, m, proof):
        return self.call(kind, *[
            proof if f == 'proof' else self.b(m[f]) for f, _ in model.JS_S])

    def ss(self, m):
        return self.call('ss', *[
            self.gproof(self._cut(model.PROOF_G, m[f])) if f == 'proof'
            else self.b(m[f]) for f, _ in model.SS])

    def so(self, m):
        return self.call('so', *[
            self.gproof(self._cut(model.PROOF_G, m[f])) if f == 'proof'
            else self.b(m[f]) for f, _ in model.SO])

    def tx(self, m):
        f, b, s = m['fam'], self.b, self.s

        def ob(h):
            return None if h is None else b(h)
        if f == 'btc':
            return self.call(
                'btc', b(m['version']), b('0001') if m['flag'] else None,
                s(self.txin(i) for i in m['ins']),
                s(self.txout(o) for o in m['outs']),
                None if m['wits'] is None
                else s(self.wit(w) for w in m['wits']),
                b(m['lock']))
        if f == 'dcr':
            return self.call(
                'dcr', b(m['version']), s(self.dtxin(i) for i in m['ins']),
                s(self.dtxout(o) for o in m['outs']), b(m['lock']),
                b(m['expiry']), s(self.dwit(w) for w in m['wits']))
        ins = s(self.txin(i) for i in m['ins'])
        outs = s(self.txout(o) for o in m['outs'])
        if f == 'spr':
            return self.call(
                'spr', b(m['version']), ins, outs, b(m['lock']),
                s(self.sjs(j) for j in m['js']),
                ob(m['jspub']), ob(m['jssig']))
        if f == 'ow':
            return self.call(
                'ow', ins, outs, b(m['lock']), b(m['expiry']),
                s(self.sjs(j) for j in m['js']), ob(m['jspub']),
                ob(m['jssig']))
        return self.call(
            'sap', ins, outs, b(m['lock']), b(m['expiry']), b(m['vbal']),
            s(self.ss(x) for x in m['ss']), s(self.so(x) for x in m['so']),
            s(self.gjs(j) for j in m['js']), ob(m['jspub']), ob(m['jssig']),
            ob(m['bsig']))


# ------------------------------------------------------------ facts of an object

def hx(v):
    'hex of a byte-like, None for absent, () and empty alike'
    if v is None:
        return None
    if isinstance(v, shared.ByteData):
        return v.to_bytes().hex()
    return bytes(v).hex()


def _osig(o):
    return hx(attr(o, 'script_sig')) or ''


def read(o, fam):
    '''mtx as a reader of the object's public attributes sees it (inputs
    carry `sig`); vectors as lists'''
    def op(p, tree=False):
        d = dict(txid=hx(p.tx_id), index=hx(p.index))
        if tree:
            d['tree'] = hx(p.tree)
        return d

    def i(x):
        return dict(op(x.outpoint), sig=_osig(x), seq=hx(x.sequence))

    def out(x):
        return dict(value=hx(x.value), script=hx(x.output_script))

    def js(x):
        return dict(
            vold=hx(x.vpub_old), vnew=hx(x.vpub_new), anchor=hx(x.anchor),
            nulls=hx(x.nullifiers), comms=hx(x.commitments),
            epk=hx(x.ephemeral_key), seed=hx(x.random_seed),
            vmacs=hx(x.vmacs), proof=hx(x.zkproof), notes=hx(x.encoded_notes))
    if fam == 'btc':
        return dict(
            fam='btc', version=hx(o.version), flag=bool(o.flag),
            ins=[i(x) for x in o.tx_ins], outs=[out(x) for x in o.tx_outs],
            wits=[[hx(s.item) for s in w.stack]
                  for w in o.tx_witnesses or ()],
            lock=hx(o.lock_time))
    if fam == 'dcr':
        return dict(
            fam='dcr', version=hx(o.version),
            ins=[dict(op(x.outpoint, True), seq=hx(x.sequence))
                 for x in o.tx_ins],
            outs=[dict(value=hx(x.value), ver=hx(x.version),
                       script=hx(x.output_script)) for x in o.tx_outs],
            lock=hx(o.lock_time), expiry=hx(o.expiry),
            wits=[dict(value=hx(w.value), height=hx(w.height),
                       index=hx(w.index), stack=hx(w.stack_script),
                       redeem=hx(w.redeem_script))
                  for w in o.tx_witnesses])
    m = dict(fam=fam, ins=[i(x) for x in o.tx_ins],
             outs=[out(x) for x in o.tx_outs], lock=hx(o.lock_time),
             js=[js(x) for x in attr(o, 'tx_joinsplits') or ()],
             jspub=hx(attr(o, 'joinsplit_pubkey')) or None,
             jssig=hx(attr(o, 'joinsplit_sig')) or None)
    if fam == 'spr':
        m['version'] = hx(o.version)
    else:
        m['expiry'] = hx(o.expiry_height)
    if fam == 'sap':
        m['vbal'] = hx(o.value_balance)
        m['ss'] = [dict(cv=hx(x.cv), anchor=hx(x.anchor),
                        null=hx(x.nullifier), rk=hx(x.rk),
                        proof=hx(x.zkproof), sig=hx(x.spend_auth_sig))
                   for x in o.tx_shielded_spends]
        m['so'] = [dict(cv=hx(x.cv), cmu=hx(x.cmu), epk=hx(x.ephemeral_key),
                        enc=hx(x.enc_ciphertext), out=hx(x.out_ciphertext),
                        proof=hx(x.zkproof))
                   for x in o.tx_shielded_outputs]
        m['bsig'] = hx(attr(o, 'binding_sig')) or None
    return m


def want(m):
    'what read() must return for an object built from or decoded as m'
    w = model.norm(m)
    for k in ('jspub', 'jssig', 'bsig'):
        if k in w:
            w[k] = w[k] or None
    return w


def got_ids(o):
    d = {}
    for k in ('tx_id_le', 'tx_id', 'wtx_id_le', 'wtx_id'):
        v = attr(o, k)
        if v:
            d[k] = hx(v)
    for k in ('hsigs', 'primary_inputs'):
        v = attr(o, k)
        if v:
            d[k] = [hx(x) for x in v]
    return d
