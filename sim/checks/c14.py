'''C14: wallets and nodes built on the library keep one ledger.

Wallet processes make addresses from their keys and scripts, send them to
payers as invoices, build payments with the library's builders, sign them
with stand-in signatures over the library's digests, and recognise what was
paid to them; node processes decode payments, look up what they spend, check
hashes and signatures, compute ids and fees and keep the set of unspent
outputs. Messages are lost, duplicated, reordered, delayed and damaged,
processes are cut off, and crash between commands and at chosen steps inside
library code, and restart from what they had stored. Every answer of every
process is compared with a reference ledger kept by the simulator from the
model; at the end the faults stop, every process hears of every payment, and
all ledgers, ids, balances and fees must be the reference's.
'''
import hashlib
import json

from sim import gen, lib, model, wire
from sim.gen import push, rb
from sim.model import NETS, le
from sim.node import Crashed, Node

ID = 'C14'
RUNS = dict(quick=1200, thorough=150000)
COMPONENTS = dict(
    real=['riemann: addresses, encodings, scripts, simple, tx_builder, all '
          'transaction classes, ids, digests and fees, in real wallet and '
          'node processes'],
    stub=['network between processes', 'storage', 'signatures (a hash of key '
          'and digest)', 'script execution', 'coin selection'])
NONTRIVIAL = 'at least 3 payments were accepted by a node'
STATES = 'digest of (network, input kinds, output kinds, digest types)'

OPS = dict(OP_DUP='76', OP_HASH160='a9', OP_EQUALVERIFY='88',
           OP_CHECKSIG='ac', OP_0='00', OP_1='51', OP_2='52', OP_16='60',
           OP_IF='63', OP_ELSE='67', OP_ENDIF='68', OP_DROP='75',
           OP_CHECKMULTISIG='ae', OP_RETURN='6a', OP_NOP='61')
WIT = ('p2wpkh', 'p2wsh')
SH = ('p2sh', 'cash_sh', 'p2wsh')


def script_pair(rng):
    'human-readable script and its bytes'
    text, raw = [], b''
    n = rng.randint(1, 7)
    own = rng.randrange(n)      # something nobody else has
    for i in range(n):
        if i == own or rng.chance(.4):
            d = rb(rng, rng.choice([20, 32, 33, 65, 75, 76, 80] if i == own
                                   else [1, 2, 20, 33, 75, 76]))
            text.append(d.hex())
            raw += push(d)
        else:
            o = rng.choice(sorted(OPS))
            text.append(o)
            raw += bytes.fromhex(OPS[o])
    return ' '.join(text), raw.hex()


def key(rng, net, kind):
    k = dict(kind=kind)
    if kind in SH:
        k['text'], k['bytes'] = script_pair(rng)
    elif rng.chance(.85):
        k['bytes'] = rng.choice(['02', '03']) + rb(rng, 32).hex()
    else:
        k['bytes'] = '04' + rb(rng, 64).hex()
    return k


def key_hash(k, net):
    b = bytes.fromhex(k['bytes'])
    return (hashlib.sha256(b).digest() if k['kind'] == 'p2wsh'
            else model.hash160(b, net))


def key_script(k, net):
    return model.script_for(k['kind'], key_hash(k, net)).hex()


def gen_(rng, tier):
    net = gen.net_for(rng, gen.fam(rng))
    if rng.chance(.3):
        net = rng.choice(model.NET_NAMES)
    fam = model.fam_of(net)
    kinds = model.kinds(net)
    wallets = []
    for _ in range(rng.randint(2, 3)):
        ks = [key(rng, net, rng.choice(kinds))
              for _ in range(rng.randint(1, 4))]
        wallets.append(ks)
    nodes = rng.randint(2, 3)
    procs = len(wallets) + nodes

    def amount():
        return rng.pick([(3, rng.randint(10 ** 4, 10 ** 10)),
                         (1, rng.choice([1, 255, 256, 65535, 65536, 2 ** 32 - 1,
                                         2 ** 32, 2 ** 40 + 1])),
                         (1, rng.randint(1, 2 ** 57))])
    genesis = [[w, k, amount()] for w, ks in enumerate(wallets)
               for k in range(len(ks)) for _ in range(rng.randint(1, 2))]

    def fates(n):
        return [[rng.choice([1, 5, 30, 200, 900])
                 for _ in range(rng.pick([(1, 0), (6, 1), (1, 2)]))]
                for _ in range(n)]

    def harm():
        if not rng.chance(.1):
            return None
        return [[rng.choice(['flip', 'drop', 'dup', 'ins', 'cut']),
                 rng.random(), rng.randrange(256)]
                for _ in range(rng.randint(1, 2))]

    def pay():
        p = dict(
            cls=rng.choice(['legacy', 'witness']),
            pick=[rng.random() for _ in range(rng.randint(1, 4))],
            seq=[int(gen.u32(rng), 16) for _ in range(4)],
            types=[rng.choice([1, 1, 0x81, 3, 0x83]) for _ in range(4)],
            version=rng.choice([1, 1, 2, 2, rng.randrange(2 ** 31)]),
            lock=rng.choice([0, 0, 500000, 1600000000, 2 ** 32 - 1]),
            expiry=rng.choice([0, 0, 499999999, rng.randrange(10 ** 6)]),
            fee=rng.choice([0, 0, rng.random() / 20]),
            parts=rng.choice([1, 1, 1, 2, 3]), frac=rng.random(),
            change=rng.randrange(8), pos=rng.random(),
            how=[rng.randrange(64) for _ in range(12)],
            opret=None, js=None, fate=fates(procs),
            harm=[harm() for _ in range(procs)])
        if rng.chance(.2):
            p['opret'] = rb(rng, rng.choice([1, 8, 20, 32, 40, 74, 75, 76,
                                             77])).hex()
        if fam in ('spr', 'ow', 'sap') and rng.chance(.3):
            p['js'] = dict(
                n=[gen.part(rng, 'gjs' if fam == 'sap' else 'sjs')
                   for _ in range(rng.pick([(3, 1), (1, 2)]))],
                pub=rb(rng, 32).hex(), sig=rb(rng, 64).hex(),
                out=rng.chance(.5), frac=rng.random())
            if fam == 'sap' and rng.chance(.6):
                p['js'].update(
                    n=p['js']['n'] if rng.chance(.3) else [],
                    ss=[gen.part(rng, 'ss') for _ in range(rng.randint(0, 2))],
                    so=[gen.part(rng, 'so') for _ in range(rng.randint(0, 2))],
                    bsig=rb(rng, 64).hex())
                if not p['js']['ss'] and not p['js']['so']:
                    p['js']['so'] = [gen.part(rng, 'so')]
        return p
    steps = []
    for _ in range(rng.randint(6, 16)):
        k = rng.pick([(8, 'invoice'), (1.5, 'boot'), (1, 'cut'), (1.5, 'relay'),
                      (.7, 'net')])
        st = dict(do=k, dt=rng.randint(1, 150))
        if k == 'invoice':
            a = rng.randrange(len(wallets))
            st.update(a=a, b=rng.randrange(len(wallets)), key=rng.randrange(8),
                      style=rng.choice(['addr', 'addr', 'direct']),
                      fate=fates(1)[0], pay=pay())
            if rng.chance(.1):
                st['damage'] = [[rng.choice(['subst', 'drop', 'swap', 'case']),
                                 rng.random(), rng.choice(model.B32)]
                                for _ in range(rng.randint(1, 2))]
        elif k == 'net':
            st.update(p=rng.randrange(procs), net=gen.any_net(rng))
        else:
            st.update(p=rng.randrange(procs), fate=fates(procs),
                      len=rng.choice([50, 200, 600]))
        if rng.chance(.15):     # the next command of this process crashes
            st['crash'] = [rng.randrange(procs), rng.random(),
                           rng.choice(['line', 'opcode'])]
        steps.append(st)
    return dict(net=net, wallets=wallets, nodes=nodes, genesis=genesis,
                base=[rb(rng, 32).hex(), rng.randrange(10 ** 6)], steps=steps,
                last=[rng.random() for _ in range(40)])


# ------------------------------------------------------------------ signing

def fake_sig(key_bytes, digest, typ):
    return hashlib.sha256(b'sig' + bytes.fromhex(key_bytes)
                          + bytes.fromhex(digest)).hexdigest() + '%02x' % typ


def code_for(kind, script, key_bytes, fam):
    'the script a signature covers (length-prepended, except for Decred)'
    if kind == 'p2wpkh':
        s = b'\x76\xa9\x14' + bytes.fromhex(script)[2:] + b'\x88\xac'
    elif kind in SH:
        s = bytes.fromhex(key_bytes)
    else:
        s = bytes.fromhex(script)
    return (s if fam == 'dcr' else model.varint(len(s)) + s).hex()


def sig_probe(i, typ, kind, script, key_bytes, value, fam):
    return [i, typ & 0x7f, bool(typ & 0x80),
            code_for(kind, script, key_bytes, fam),
            value.to_bytes(8, 'little').hex(), False]


# ------------------------------------------------------------------ processes
# Everything below here up to execute() runs inside the processes, on the
# library.

def addresses_of(k):
    'every way the library has of making this key an address'
    A = lib.riemann.encoding.addresses
    kind, b = k['kind'], bytes.fromhex(k['bytes'])
    if kind in ('p2pkh', 'cash_pkh'):
        cash = kind == 'cash_pkh'
        v = [A.make_pkh_address(b, cashaddr=cash)]
        if cash or not has_cash():
            v += [A.make_pkh_address(b), A.make_p2pkh_address(b)]
        if not cash:
            v.append(A.make_legacy_p2pkh_address(b))
    elif kind in ('p2sh', 'cash_sh'):
        cash, t = kind == 'cash_sh', k['text']
        v = [A.make_sh_address(t, cashaddr=cash)]
        if cash or not has_cash():
            v += [A.make_sh_address(t), A.make_p2sh_address(t)]
        if not cash:
            v.append(A.make_legacy_p2sh_address(t))
    elif kind == 'p2wpkh':
        v = [A.make_pkh_address(b, witness=True), A.make_p2wpkh_address(b)]
    else:
        v = [A.make_sh_address(k['text'], witness=True),
             A.make_p2wsh_address(k['text'])]
    return v


def has_cash():
    return lib.riemann.network.CASHADDR_P2PKH is not None


def target(t, how):
    'an output for a payment target'
    tb, A = lib.tx_builder, lib.riemann.encoding.addresses
    S, u = lib.riemann.simple, lib.riemann.utils
    v = t['value']
    if 'opret' in t:
        return tb.make_op_return_output(bytes.fromhex(t['opret']))
    if 'addr' in t:
        if how % 3:
            return S.output(v, t['addr'])
        return tb._make_output(u.i2le_padded(v, 8),
                               A.to_output_script(t['addr']))
    k = t['key']
    w, b = k['kind'] in WIT, bytes.fromhex(k['bytes'])
    if k['kind'] in SH:
        x, fs = k['text'], [
            lambda: tb.make_sh_output(v, x, witness=w),
            lambda: (tb.make_p2wsh_output if w else tb.make_p2sh_output)(v, x),
            lambda: tb._make_output(
                u.i2le_padded(v, 8), tb.make_sh_output_script(x, w)),
            lambda: tb._make_output(
                u.i2le_padded(v, 8),
                (tb.make_p2wsh_output_script if w
                 else tb.make_p2sh_output_script)(x)),
            lambda: tb._make_output(
                u.i2le_padded(v, 8), tb.make_sh_script_pubkey(b, w))]
    else:
        fs = [lambda: tb.make_pkh_output(v, b, witness=w),
              lambda: (tb.make_p2wpkh_output if w
                       else tb.make_p2pkh_output)(v, b),
              lambda: tb._make_output(
                  u.i2le_padded(v, 8), tb.make_pkh_output_script(b, w)),
              lambda: tb._make_output(
                  u.i2le_padded(v, 8),
                  (tb.make_p2wpkh_output_script if w
                   else tb.make_p2pkh_output_script)(b))]
    return fs[how % len(fs)]()


def objects(kind, xs):
    return [lib.ev(getattr(lib.Build(), kind)(x)) for x in xs]


def spend(state, cmd):
    'build and sign a payment'
    tb, S = lib.tx_builder, lib.riemann.simple
    fam, how = state['fam'], cmd['how']
    outs = [target(t, how[n % 8]) for n, t in enumerate(cmd['targets'])]
    ins = []
    for n, c in enumerate(cmd['coins']):
        seq = cmd['seq'][n % 4]
        h = how[(n + 3) % 12]
        if h % 3 == 0:
            op = tb.make_outpoint(bytes.fromhex(c['txid'])[::-1], c['index'])
        elif fam == 'dcr':
            op = S.outpoint(c['txid'], c['index'], 0)
        else:
            op = S.outpoint(c['txid'], c['index'])
        if h % 4 == 0:
            i = tb.make_witness_input(op, seq)
        elif h % 4 == 1:
            i = tb.make_legacy_input(op, b'', b'', seq)
        else:
            i = S.unsigned_input(op, sequence=seq)
        ins.append(i)
    keys = [state['keys'][c['key']] for c in cmd['coins']]
    wit = keys[0]['kind'] in WIT
    js = cmd['js'] or {}
    kw = dict(version=cmd['version'], lock_time=cmd['lock'])
    if fam == 'btc' and wit:
        if how[9] % 2:
            o = S.unsigned_witness_tx(ins, outs, **kw)
        elif how[11] % 3 == 0:      # a draft without any witnesses yet
            o = lib.tx.Tx(
                version=cmd['version'].to_bytes(4, 'little'),
                flag=b'\0\1', tx_ins=ins, tx_outs=outs,
                tx_witnesses=[None, [], ()][how[10] % 3],
                lock_time=cmd['lock'].to_bytes(4, 'little'))
        else:
            o = tb.make_tx(tx_ins=ins, tx_outs=outs, tx_witnesses=[
                tb.make_empty_witness() for _ in ins], **kw)
    elif fam == 'dcr':
        ws = [tb.make_decred_witness(
            c['value'].to_bytes(8, 'little'), bytes(4), bytes(4), b'', b'')
            for c in cmd['coins']]
        o = tb.make_tx(tx_ins=ins, tx_outs=outs, expiry=cmd['expiry'],
                       tx_witnesses=ws, **kw)
    else:
        if fam in ('ow', 'sap'):
            kw['expiry'] = cmd['expiry']
        if fam == 'spr':
            kw['tx_joinsplits'] = []
        if js.get('n'):
            kw.update(
                tx_joinsplits=objects('gjs' if fam == 'sap' else 'sjs',
                                      js['n']),
                joinsplit_pubkey=bytes.fromhex(js['pub']),
                joinsplit_sig=bytes.fromhex(js['sig']))
        if 'bsig' in js:
            kw.update(tx_shielded_spends=objects('ss', js['ss']),
                      tx_shielded_outputs=objects('so', js['so']),
                      value_balance=js['vbal'],
                      binding_sig=bytes.fromhex(js['bsig']))
        if how[9] % 2 and 'bsig' not in js:
            o = S.unsigned_legacy_tx(ins, outs, **kw)
        else:
            o = tb.make_tx(tx_ins=ins, tx_outs=outs, **kw)
    # what a wallet tells its user before it signs
    draft = [o.tx_id.hex() if fam == 'dcr' or (fam == 'btc' and wit)
             else None, o.calculate_fee() if fam == 'dcr' else
             o.calculate_fee([c['value'] for c in cmd['coins']])]
    sigs = []
    for n, (c, k) in enumerate(zip(cmd['coins'], keys)):
        typ = cmd['types'][n]
        d = wire.digest(o, fam, sig_probe(n, typ, k['kind'], c['script'],
                                          k['bytes'], c['value'], fam))
        if not isinstance(d, str):
            return ['sign', d]
        sigs.append(fake_sig(k['bytes'], d, typ))
    if fam == 'btc' and wit:
        o = o.copy(tx_witnesses=[
            tb.make_witness([bytes.fromhex(s), bytes.fromhex(k['bytes'])])
            for s, k in zip(sigs, keys)])
    else:
        ser = lib.riemann.script.serialization
        done = []
        for n, (s, k) in enumerate(zip(sigs, keys)):
            if k['kind'] in SH:
                whole = tb.make_script_sig(s, k['text'])
                stack = bytes(ser.serialize(s))
            else:
                whole = ser.serialize('%s %s' % (s, k['bytes']))
                stack = bytes(whole)
            if fam == 'dcr':
                done.append(o.tx_witnesses[n].copy(
                    stack_script=stack,
                    redeem_script=bytes(whole)[len(stack):]))
            elif how[10] % 2:
                done.append(o.tx_ins[n].copy(
                    stack_script=stack,
                    redeem_script=bytes(whole)[len(stack):]))
            else:
                done.append(tb.make_legacy_input(
                    o.tx_ins[n].outpoint, stack, bytes(whole)[len(stack):],
                    cmd['seq'][n % 4]))
        o = (o.copy(tx_witnesses=done) if fam == 'dcr'
             else o.copy(tx_ins=done))
    vals = [c['value'] for c in cmd['coins']]
    return ['v', dict(tx=pack(o, fam), txid=o.tx_id.hex(),
                      fee=o.calculate_fee() if fam == 'dcr'
                      else o.calculate_fee(vals), draft=draft)]


def pack(o, fam):
    return lib.read(o, fam) if fam == 'dcr' else o.to_bytes().hex()


def unpack(x, fam):
    if fam == 'dcr':
        return lib.ev(lib.Build().tx(x))
    raw = bytes.fromhex(x)
    o = lib.cls(fam).from_bytes(raw)
    if o.to_bytes() != raw:
        raise ValueError('trailing bytes')
    return o


def mine(state, script):
    'three ways of finding out whose output this is'
    A = lib.riemann.encoding.addresses
    found = [[n for n, a in enumerate(state['addr'])
              if A.to_output_script(a[0]) == script]]
    by_text = set()
    by_hash = set()
    for cash in ((True, False) if has_cash() else (True,)):
        try:
            text = A.from_output_script(script, cashaddr=cash)
        except ValueError:
            continue
        for n, a in enumerate(state['addr']):
            if text in a:
                by_text.add(n)
            if A.parse_hash(a[0]) == A.parse_hash(text):
                by_hash.add(n)
    return found + [sorted(by_text), sorted(by_hash)]


def tokens(script):
    'what a script sig pushes'
    t = lib.riemann.script.serialization.deserialize(script)
    if bytes(lib.riemann.script.serialization.serialize(t)) != bytes(script):
        raise ValueError('odd script sig')
    return t.split()


def accept(state, x):
    'a node judges one payment: [verdict, ...]'
    tb, u = lib.tx_builder, lib.riemann.utils
    fam, utxo = state['fam'], state['utxo']
    try:
        o = unpack(x, fam)
    except Exception as e:
        return ['refused', lib.exc(e)]
    txid = o.tx_id.hex()
    if o.tx_id_le[::-1] != o.tx_id:
        return ['ids', o.tx_id_le.hex(), txid]
    if txid in state['seen']:
        return ['seen', txid]
    ops = [i.outpoint.tx_id[::-1].hex() + ':%d' % u.le2i(i.outpoint.index)
           for i in o.tx_ins]
    if any(p in state['spent'] for p in ops) or len(set(ops)) < len(ops):
        return ['conflict', txid]
    if any(p not in utxo for p in ops):
        return ['orphan', txid]
    values = []
    for n, p in enumerate(ops):
        value, script = utxo[p]
        script_b = bytes.fromhex(script)
        kind = ('p2wsh' if script_b[:2] == b'\0\x20' else 'p2wpkh'
                if script_b[:2] == b'\0\x14' else 'p2sh'
                if script_b[:1] == b'\xa9' else 'p2pkh')
        try:
            if kind in WIT:
                sig, kb = [s.item for s in o.tx_witnesses[n].stack]
                sig, kb = bytes(sig).hex(), bytes(kb)
                if o.tx_ins[n].script_sig:
                    return ['bad', 'script sig', n]
            elif fam == 'dcr':
                w = o.tx_witnesses[n]
                if u.le2i(w.value) != value:
                    return ['bad', 'value', n]
                sig, kb = tokens(w.stack_script + w.redeem_script)
                kb = bytes.fromhex(kb)
            else:
                sig, kb = tokens(o.tx_ins[n].script_sig)
                kb = bytes.fromhex(kb)
            if kind in SH:
                want = tb.make_sh_script_pubkey(kb, kind == 'p2wsh')
            else:
                want = tb.make_pkh_output_script(kb, kind == 'p2wpkh')
            typ = int(sig[64:], 16)
        except Exception as e:
            return ['bad', lib.exc(e), n]
        if want != script_b:
            return ['bad', 'hash', n, bytes(want).hex()]
        if typ not in (1, 3, 0x81, 0x83):
            return ['bad', 'type', n]
        d = wire.digest(o, fam, sig_probe(n, typ, kind, script, kb.hex(),
                                          value, fam))
        if not isinstance(d, str) or fake_sig(kb.hex(), d, typ) != sig:
            return ['bad', 'signature', n, d]
        values.append(value)
    fee = o.calculate_fee() if fam == 'dcr' else o.calculate_fee(values)
    if fee < 0:
        return ['bad', 'fee', fee]
    made = enter(state, o, txid)
    for p in ops:
        del utxo[p]
        state['spent'].add(p)
    return ['accepted', txid, ops, made, fee]


def enter(state, o, txid):
    u = lib.riemann.utils
    made = []
    for n, x in enumerate(o.tx_outs):
        e = [u.le2i(x.value), bytes(x.output_script).hex()]
        state['utxo'][txid + ':%d' % n] = e
        made.append(e)
    state['seen'].add(txid)
    return made


def handler(state, cmd):
    op = cmd['op']
    if op == 'net':
        lib.select(cmd['net'])
        return None
    lib.select(cmd['net'])
    if op == 'wallet':      # start: keys only, everything else is derived
        state.update(fam=cmd['fam'], keys=cmd['keys'],
                     addr=[addresses_of(k) for k in cmd['keys']])
        return state['addr']
    if op == 'node':        # start: replay what is stored
        state.update(fam=cmd['fam'], utxo={}, spent=set(), seen=set(),
                     orphans={})
        o = unpack(cmd['genesis'], cmd['fam'])
        enter(state, o, o.tx_id.hex())
        got = [accept(state, x) for x in cmd['stored']]
        return [[o.tx_id.hex(), got], ledger(state)]
    if op == 'invoice':
        return addresses_of(state['keys'][cmd['key']])
    if op == 'pay':
        try:
            return spend(state, cmd)
        except Exception as e:
            return lib.exc(e, True)
    if op == 'sync':
        try:
            o = unpack(cmd['tx'], state['fam'])
        except Exception as e:
            return lib.exc(e)
        return ['v', o.tx_id.hex(),
                [[lib.riemann.utils.le2i(x.value),
                  mine(state, bytes(x.output_script))] for x in o.tx_outs]]
    if op == 'tx':
        out = [[cmd['id'], accept(state, cmd['tx'])]]
        if out[0][1][0] == 'orphan':
            state['orphans'][cmd['id']] = cmd['tx']
        more = out[0][1][0] == 'accepted'
        while more:     # does this complete any that waited?
            more = False
            for i in sorted(state['orphans'], key=str):
                r = accept(state, state['orphans'][i])
                if r[0] != 'orphan':
                    del state['orphans'][i]
                    out.append([i, r])
                    more = more or r[0] == 'accepted'
        return out
    return ledger(state)


def ledger(state):
    return sorted([k] + v for k, v in state['utxo'].items())


# ------------------------------------------------------------------ simulator

def garble(x, harm, fam):
    'a damaged copy of a message'
    if fam == 'dcr':        # fields instead of bytes
        x = json.loads(json.dumps(x))
        for kind, a, v in harm:
            where = [(x, 'lock'), (x, 'expiry')]
            where += [(i, f) for i in x['ins'] for f in ('txid', 'index',
                                                         'tree', 'seq')]
            where += [(o, f) for o in x['outs'] for f in ('value', 'ver',
                                                          'script')]
            d, f = where[int(a * len(where))]
            b = bytearray.fromhex(d[f])
            if b:
                b[v % len(b)] ^= 1 << (v % 8)
            d[f] = b.hex()
        return x
    b = bytearray.fromhex(x)
    for kind, a, v in harm:
        i = int(a * len(b))
        if not b:
            break
        if kind == 'flip':
            b[i] ^= 1 << (v % 8)
        elif kind == 'drop':
            del b[i]
        elif kind == 'dup':
            b.insert(i, b[i])
        elif kind == 'ins':
            b.insert(i, v)
        else:
            del b[i + 1:]
    return b.hex()


def misspell(s, damage):
    for kind, a, c in damage:
        i = int(a * len(s))
        if not s:
            break
        if kind == 'subst':
            s = s[:i] + c + s[i + 1:]
        elif kind == 'drop':
            s = s[:i] + s[i + 1:]
        elif kind == 'swap':
            s = s[:i] + s[i + 1:i + 2] + s[i] + s[i + 2:]
        else:
            s = s[:i] + s[i].swapcase() + s[i + 1:]
    return s


class World:
    'the reference ledger, the network and the stable storage'

    def __init__(self, sc, res):
        self.sc, self.res = sc, res
        self.net = sc['net']
        assert sc['wallets'] and all(sc['wallets']) and sc['nodes'] > 1
        assert len(sc['last']) == 40 and len(sc['base'][0]) == 64
        ks = [k['bytes'] for ws in sc['wallets'] for k in ws]
        assert len(set(ks)) == len(ks)
        for ws in sc['wallets']:
            for k in ws:
                assert len(k['bytes']) in (66, 130) or 'text' in k
        for st in sc['steps']:
            p = st.get('pay')
            if p:
                assert len(p['seq']) == len(p['types']) == 4
                assert len(p['how']) == 12 and p['parts']
                assert set(p['types']) <= {1, 3, 0x81, 0x83}
                js = p['js']
                assert js is None or js['n'] or js.get('ss') or js.get('so')
                assert js is None or (len(js['pub']) == 64
                                      and len(js['sig']) == 128)
                assert len(p['opret'] or '') <= 154 and p['opret'] != ''
        self.fam = model.fam_of(self.net)
        self.nw = len(sc['wallets'])
        n = self.nw + sc['nodes']
        self.procs = [Node(handler) for _ in range(n)]
        self.up = [False] * n
        self.crash = [None] * n
        self.cut = [0] * n
        self.now = self.seq = 0
        self.mail = []
        self.txs = {}           # id -> dict(tx, m, txid, fee, ...)
        self.by_txid = {}
        self.coins = [{} for _ in range(self.nw)]   # stored by wallets
        self.known = [set() for _ in range(self.nw)]
        self.stored = [[] for _ in range(n)]        # stored by nodes
        self.utxo = {}
        self.pool = 0
        self.fees = 0
        self.ref_utxo = {}      # everything created and not spent
        outs = []
        for w, k, v in sc['genesis']:
            o = dict(value=v.to_bytes(8, 'little').hex(),
                     script=key_script(sc['wallets'][w][k], self.net))
            if self.fam == 'dcr':
                o['ver'] = '0000'
            outs.append(o)
        self.total = sum(v for _, _, v in sc['genesis'])
        i = dict(txid=sc['base'][0], index='ffffffff', stack='', redeem='',
                 seq='ffffffff')
        m = dict(fam=self.fam, ins=[i], outs=outs, lock='00000000')
        if self.fam == 'btc':
            m.update(version='01000000', flag=False, wits=None)
        elif self.fam == 'dcr':
            m.update(version='01000000', expiry='00000000', wits=[],
                     ins=[dict(txid=i['txid'], index=i['index'], tree='00',
                               seq=i['seq'])])
        elif self.fam == 'spr':
            m.update(version='01000000', js=[], jspub=None, jssig=None)
        else:
            m.update(expiry='00000000', js=[], jspub=None, jssig=None)
            if self.fam == 'sap':
                m.update(vbal='00' * 8, ss=[], so=[], bsig=None)
        assert model.sane(m)
        self.genesis = self.record(m)
        self.gid = model.ids(m, self.net)['tx_id']
        self.index_outputs(self.gid, m)
        self.gm = m

    def record(self, m):
        return lib.want(m) if self.fam == 'dcr' else model.ser(m).hex()

    def index_outputs(self, txid, m):
        for n, o in enumerate(m['outs']):
            self.ref_utxo['%s:%d' % (txid, n)] = [le(o['value']), o['script']]

    def fail(self, cls, **kw):
        self.res.fail(cls, net=self.net, **kw)

    def bad(self):
        return bool(self.res.violations)

    # -- processes

    def call(self, p, cmd, faulty=True):
        'a command to a process, which is started if it is down'
        if not self.up[p]:
            self.boot(p)
            if self.bad():
                return None
        k, mode = None, 'line'
        if faulty and self.crash[p]:
            f, mode = self.crash[p]
            self.crash[p] = None
            k = int(4 ** (f * 8)) - 1
        self.res.real_calls += 1
        try:
            return self.procs[p].call(dict(cmd, net=self.net), k, mode)
        except Crashed:
            self.res.fault('crash_inside_' + cmd['op'])
            self.up[p] = False
            return None

    def boot(self, p):
        self.up[p] = True
        if p < self.nw:
            ks = self.sc['wallets'][p]
            v = self.call(p, dict(op='wallet', fam=self.fam, keys=ks), False)
            for k, got in zip(ks, v):
                self.check_address(k, got)
            return
        st = self.stored[p]
        (g, got), led = self.call(p, dict(
            op='node', fam=self.fam, genesis=self.genesis,
            stored=[self.txs[i]['tx'] for i in st]), False)
        self.res.ev('boot', p, len(st))
        if g != self.gid:
            self.fail('wrong transaction id', got=g, want=self.gid)
        for i, r in zip(st, got):
            self.judge_accept(p, i, r, again=True)
        if not self.bad():
            self.check_ledger(p, led)

    def check_address(self, k, got):
        want = model.make_address(self.net, k['kind'], key_hash(k, self.net))
        if any(g != want for g in got):
            self.fail('wrong address', key=k, got=got, want=want)

    def check_ledger(self, p, led):
        want = {'%s:%d' % (self.gid, n): [le(o['value']), o['script']]
                for n, o in enumerate(self.gm['outs'])}
        for i in self.stored[p]:
            t = self.txs[i]
            for q in t['ops']:
                want.pop(q, None)
            for n, o in enumerate(t['m']['outs']):
                want['%s:%d' % (t['txid'], n)] = [le(o['value']), o['script']]
        want = sorted([k] + v for k, v in want.items())
        if led != want:
            self.fail('ledger differs', node=p,
                      extra=[x for x in led if x not in want][:3],
                      missing=[x for x in want if x not in led][:3])

    # -- network

    def post(self, dest, what, fate, src=None):
        if not fate:
            self.res.fault('message_lost')
        if len(fate) > 1:
            self.res.fault('message_duplicated')
        for d in fate:
            self.seq += 1
            self.mail.append((self.now + d, self.seq, dest, what, src))

    def deliver(self, upto):
        while self.mail and not self.bad():
            self.mail.sort(key=lambda x: x[:2])
            if self.mail[0][0] > upto:
                break
            t, s, dest, what, src = self.mail.pop(0)
            if self.cut[dest] > t or (src is not None and self.cut[src] > t):
                self.res.fault('message_lost_in_partition')
                continue
            late = [x[1] for x in self.mail if x[1] < s and x[2] == dest]
            if late:
                self.res.fault('message_overtaken')
            self.now = max(self.now, t)
            self.receive(dest, what)

    def receive(self, p, what):
        if what[0] == 'invoice':
            self.pay(p, what[1])
        elif p < self.nw:
            self.sync(p, what[1], what[2])
        else:
            self.node_tx(p, what[1], what[2])

    def announce(self, src, i, fate, harm=None):
        t = self.txs[i]
        for p in range(len(self.procs)):
            if p == src:
                continue
            h = harm[p] if harm and not t['open'] else None
            x = t['tx']
            if h:
                x = garble(x, h, self.fam)
                if x == t['tx']:
                    h = None
                else:
                    self.res.fault('message_damaged')
            self.post(p, ('tx', i, x), fate[p], src)

    # -- nodes

    def node_tx(self, p, i, x):
        out = self.call(p, dict(op='tx', id=i if x == self.txs[i]['tx']
                                else '~%d' % self.seq, tx=x))
        if out is None:
            return
        for k, r in out:
            if isinstance(k, str):
                if r[0] == 'accepted':
                    self.fail('a damaged payment was accepted', sent=x,
                              original=self.txs[i]['tx'], got=r)
                self.res.probe('damaged_' + r[0])
                continue
            if self.judge_accept(p, k, r) and r[0] == 'accepted':
                self.stored[p].append(k)
        self.res.ev('node', p, [[k, r[0]] for k, r in out])

    def judge_accept(self, p, i, r, again=False):
        t = self.txs[i]
        have = set(self.stored[p])
        if again:
            have = set(self.stored[p][:self.stored[p].index(i)])
        if i in have:
            want = ['seen', t['txid']]
        elif all(j in have for j in t['parents']):
            want = ['accepted', t['txid'], t['ops'],
                    [[le(o['value']), o['script']] for o in t['m']['outs']],
                    t['fee']]
            self.res.probe('accepted')
        else:
            want = ['orphan', t['txid']]
            self.res.fault('spend_before_its_parent')
        if r != want:
            self.fail('a node misjudges a payment', node=p, got=r, want=want,
                      tx=t['tx'], after_restart=again)
        return r == want

    # -- wallets

    def sync(self, w, i, x, faulty=True):
        'a wallet hears of a payment'
        t = self.txs.get(i) or dict(m=self.gm, txid=self.gid, tx=self.genesis)
        if x != t['tx']:
            return      # wallets ask a node before believing
        v = self.call(w, dict(op='sync', tx=x), faulty)
        if v is None:
            return
        ks = self.sc['wallets'][w]
        scripts = [key_script(k, self.net) for k in ks]
        want = []
        for o in t['m']['outs']:
            own = [n for n, s in enumerate(scripts) if s == o['script']]
            # the same hash in another kind of script is not ours
            hs = [n for n, k in enumerate(ks) if own_hash(k, o['script'],
                                                          self.net)]
            want.append([le(o['value']), [own, own, hs]])
        if v != ['v', t['txid'], want]:
            self.fail('a wallet misreads a payment', wallet=w, got=v,
                      want=['v', t['txid'], want], tx=x)
            return
        if i in self.known[w]:
            return
        self.known[w].add(i)
        for n, (value, (own, _, _)) in enumerate(want):
            if own:
                self.coins[w]['%s:%d' % (t['txid'], n)] = dict(
                    txid=t['txid'], index=n, value=value, key=own[0],
                    script=t['m']['outs'][n]['script'], tx=i)
        self.res.ev('sync', w, i, len(self.coins[w]))

    def pay(self, w, inv):
        p = inv['pay']
        coins = sorted(self.coins[w].values(),
                       key=lambda c: (c['tx'], c['index']))
        ks = self.sc['wallets'][w]
        cls = [c for c in coins if (ks[c['key']]['kind'] in WIT)
               == (p['cls'] == 'witness')]
        if not cls:
            cls = coins
        chosen = []
        for f in p['pick']:
            if cls:
                chosen.append(cls.pop(int(f * len(cls))))
        if not chosen:
            self.res.probe('no_coins')
            return
        total = sum(c['value'] for c in chosen)
        # what joinsplits and shielded pools take or give
        js, give = self.shield(p, total)
        total += give
        fee = int(total * p['fee'])
        left = total - fee
        amount = int(left * p['frac'])
        targets = []
        part = amount // p['parts']
        for n in range(p['parts']):
            t = dict(value=part)
            if inv['style'] == 'addr':
                t['addr'] = inv['addr']
            else:
                t['key'] = inv['k']
            targets.append(t)
        ck = p['change'] % len(ks)
        targets.insert(int(p['pos'] * (len(targets) + 1)), dict(
            value=left - part * p['parts'], key=ks[ck]))
        if p['opret']:
            targets.insert(int(p['pos'] * 1.9), dict(value=0,
                                                     opret=p['opret']))
        types = []
        for n in range(len(chosen)):
            t = p['types'][n % 4]
            if t & 3 == 3 and (n >= len(targets) or self.fam == 'ow'):
                t = 1
            if self.fam == 'spr' and js:
                t = 1       # the only type allowed with joinsplits
            types.append(t)
        version = p['version']
        if self.fam == 'spr':
            version = 2 if js else 1
        cmd = dict(op='pay', targets=targets, coins=chosen, seq=p['seq'],
                   version=version, lock=p['lock'], expiry=p['expiry'],
                   types=types, how=p['how'], js=js)
        m = self.expected(cmd, chosen, targets)
        v = self.call(w, cmd)
        if v is None:
            # it did not get as far as storing or sending anything
            self.post(w, ('invoice', inv), [p['how'][0]])
            return
        if v[0] != 'v':
            if inv.get('damaged') and v[0] == 'x':
                self.res.probe('damaged_address_refused')
            else:
                self.fail('a wallet cannot pay', wallet=w, got=v, cmd=cmd)
            return
        if m is None:
            self.fail('paid to what is no address here', cmd=cmd, got=v)
            return
        want = dict(tx=self.record(m), txid=model.ids(m, self.net)['tx_id'],
                    fee=fee)
        want['draft'] = [want['txid'] if self.fam == 'dcr'
                         or m.get('flag') else None, fee]
        if v[1] != want:
            self.fail('a payment is not what was asked for', wallet=w, cmd=cmd,
                      got=v[1], want=want)
            return
        i = len(self.txs) + 1
        ops = ['%s:%d' % (c['txid'], c['index']) for c in chosen]
        self.txs[i] = dict(
            m=m, tx=want['tx'], txid=want['txid'], fee=fee, ops=ops,
            parents=[c['tx'] for c in chosen if c['tx']],
            open=any(t & 3 == 3 for t in types) or bool(js))
        for q in ops:       # stored before the payment is sent
            del self.coins[w][q]
            del self.ref_utxo[q]
        self.index_outputs(want['txid'], m)
        self.fees += fee
        self.pool -= give
        self.res.state(self.net, sorted({ks[c['key']]['kind']
                                         for c in chosen}),
                       sorted(t.get('key', inv.get('k', {}))['kind']
                              if 'opret' not in t else 'opret'
                              for t in targets), types, bool(js))
        self.res.ev('pay', w, i, want['txid'], fee)
        self.sync(w, i, want['tx'], False)      # its own change
        if not self.bad():
            self.announce(w, i, p['fate'], p['harm'])

    def shield(self, p, total):
        if not p['js']:
            return None, 0
        js = dict(p['js'], n=[dict(j) for j in p['js']['n']])
        room = min(total, 2 ** 62 - max(0, self.pool))
        d = int((self.pool if js['out'] else room) * js['frac'])
        give, rest = (d if js['out'] else -d), d
        for k, j in enumerate(js['n']):
            part = rest if k == len(js['n']) - 1 and 'bsig' not in js \
                else rest // 2
            rest -= part
            v = part.to_bytes(8, 'little').hex()
            j['vnew'], j['vold'] = ((v, '00' * 8) if js['out']
                                    else ('00' * 8, v))
        if 'bsig' in js:
            js['vbal'] = rest if js['out'] else -rest
        return js, give

    def expected(self, cmd, chosen, targets):
        'the record of the payment asked for, with its signatures'
        b = bytes.fromhex
        outs = []
        for n, t in enumerate(targets):
            o = dict(value=t['value'].to_bytes(8, 'little').hex())
            if 'opret' in t:
                o['script'] = '6a' + push(b(t['opret'])).hex()
            elif 'key' in t:
                o['script'] = key_script(t['key'], self.net)
            else:
                dest = sorted({model.script_for(*d).hex() for d in
                               model.destination(self.net, t['addr'])})
                if len(dest) != 1:
                    return None
                o['script'] = dest[0]
            if self.fam == 'dcr':
                o['ver'] = '0000'
            outs.append(o)
        keys = [self.key_of(c) for c in chosen]
        ins = []
        for n, c in enumerate(chosen):
            i = dict(txid=b(c['txid'])[::-1].hex(),
                     index=c['index'].to_bytes(4, 'little').hex(),
                     seq=cmd['seq'][n % 4].to_bytes(4, 'little').hex())
            if self.fam == 'dcr':
                i['tree'] = '00'
            else:
                i.update(stack='', redeem='')
            ins.append(i)
        f, js = self.fam, cmd['js'] or {}
        m = dict(fam=f, ins=ins, outs=outs,
                 lock=cmd['lock'].to_bytes(4, 'little').hex())
        wit = keys[0]['kind'] in WIT
        if f in ('btc', 'dcr', 'spr'):
            m['version'] = cmd['version'].to_bytes(4, 'little').hex()
        if f in ('dcr', 'ow', 'sap'):
            m['expiry'] = cmd['expiry'].to_bytes(4, 'little').hex()
        if f == 'btc':
            m.update(flag=wit, wits=[[] for _ in ins] if wit else None)
        elif f == 'dcr':
            m['wits'] = [dict(value=c['value'].to_bytes(8, 'little').hex(),
                              height='00000000', index='00000000', stack='',
                              redeem='') for c in chosen]
        else:
            some = bool(js.get('n'))
            m.update(js=js.get('n') or [],
                     jspub=js['pub'] if some else None,
                     jssig=js['sig'] if some else None)
        if f == 'sap':
            m.update(ss=js.get('ss', []), so=js.get('so', []),
                     vbal=js.get('vbal', 0).to_bytes(8, 'little',
                                                     signed=True).hex(),
                     bsig=js.get('bsig'))
        assert model.sane(m), m
        sigs = []
        for n, (c, k) in enumerate(zip(chosen, keys)):
            d = wire.digest_want(m, self.net, sig_probe(
                n, cmd['types'][n], k['kind'], c['script'], k['bytes'],
                c['value'], f))
            assert d, (m['fam'], n, cmd['types'], len(outs), self.net)
            sigs.append(fake_sig(k['bytes'], d, cmd['types'][n]))
        for n, (s, k) in enumerate(zip(sigs, keys)):
            if wit:
                m['wits'][n] = [s, k['bytes']]
                continue
            put = m['wits'][n] if f == 'dcr' else m['ins'][n]
            kb = push(b(k['bytes'])).hex()
            put['stack'] = push(b(s)).hex() + (
                '' if k['kind'] in SH else kb)
            put['redeem'] = kb if k['kind'] in SH else ''
        return m

    def key_of(self, c):
        for ks in self.sc['wallets']:
            for k in ks:
                if key_script(k, self.net) == c['script']:
                    return k

    def invoice(self, st):
        a, b = st['a'], st['b']
        ks = self.sc['wallets'][a]
        n = st['key'] % len(ks)
        v = self.call(a, dict(op='invoice', key=n))
        if v is None:
            return
        self.check_address(ks[n], v)
        inv = dict(style=st['style'], addr=v[0], k=ks[n], pay=st['pay'])
        if 'damage' in st and st['style'] == 'addr':
            s = misspell(v[0], st['damage'])
            if s != v[0]:
                inv.update(addr=s, damaged=True)
                self.res.fault('address_damaged')
        self.post(b, ('invoice', inv), st['fate'], a)

    def run(self):
        sc, res = self.sc, self.res
        for w in range(self.nw):
            self.sync(w, 0, self.genesis)
        for st in sc['steps']:
            self.now += st['dt']
            if 'crash' in st:
                p, f, mode = st['crash']
                self.crash[p] = (f, mode)
            self.deliver(self.now)
            if self.bad():
                return
            do = st['do']
            if do == 'invoice':
                self.invoice(st)
            elif do == 'boot':
                self.procs[st['p']].kill()
                self.up[st['p']] = False
                res.fault('crash_between_commands')
            elif do == 'cut':
                self.cut[st['p']] = self.now + st['len']
                res.fault('partition')
            elif do == 'net':
                self.procs[st['p']].call(dict(op='net', net=st['net']))
                res.fault('other_network_in_between')
            elif do == 'relay' and st['p'] >= self.nw:
                for i in self.stored[st['p']]:
                    self.announce(st['p'], i, st['fate'])
            if self.bad():
                return
        # faults stop
        self.cut = [0] * len(self.procs)
        self.crash = [None] * len(self.procs)
        self.deliver(self.now + 10 ** 6)
        order = sorted(self.txs)
        for i in sorted(order, key=lambda i: sc['last'][i % 40]):
            for p in range(len(self.procs)):
                if not self.bad():
                    self.receive(p, ('tx', i, self.txs[i]['tx']))
        for w in range(self.nw):
            if not self.bad():
                self.sync(w, 0, self.genesis)
        if self.bad():
            return
        self.finish()

    def finish(self):
        sc, res = self.sc, self.res
        want = sorted([k] + v for k, v in self.ref_utxo.items())
        for p in range(self.nw, len(self.procs)):
            led = self.call(p, dict(op='ledger'))
            if self.bad():
                return
            if led != want or set(self.stored[p]) != set(self.txs):
                self.fail('ledgers do not converge', node=p,
                          missing=sorted(set(self.txs)
                                         - set(self.stored[p])))
                return
            res.ev('end', p, len(led))
        if sum(v[1] for v in want) + self.fees + self.pool != self.total:
            self.fail('value is not conserved', total=self.total,
                      fees=self.fees, pool=self.pool)
        for w in range(self.nw):
            scripts = {key_script(k, self.net) for k in sc['wallets'][w]}
            own = {k for k, v in self.ref_utxo.items() if v[1] in scripts}
            if own != set(self.coins[w]):
                self.fail('a wallet does not have its coins', wallet=w)
        res.nontrivial = len(self.txs) >= 3
        res.probe('payments', len(self.txs))


def own_hash(k, script, net):
    h = key_hash(k, net).hex()
    kind = destination_hash(script)
    return kind is not None and kind == h


def destination_hash(script):
    for pre, suf in (('76a914', '88ac'), ('a914', '87'), ('0014', ''),
                     ('0020', '')):
        n = 64 if pre == '0020' else 40
        if (script.startswith(pre) and script.endswith(suf)
                and len(script) == len(pre) + n + len(suf)):
            return script[len(pre):len(pre) + n]
    return None


def execute(sc, res):
    w = World(sc, res)
    w.run()
    res.simtime += w.now
    for p in w.procs:
        p.stop()
