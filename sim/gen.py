'''Workload generators: networks, transactions ("mtx"), scripts, calls.
Everything is drawn from the run's Rng; results are plain JSON.'''
from sim import model
from sim.model import NETS, NET_NAMES, fam_of, varint

BY_FAM = {}
for _n in NET_NAMES:
    BY_FAM.setdefault(fam_of(_n), []).append(_n)
SEGWIT_NETS = [n for n in BY_FAM['btc'] if NETS[n]['segwit']]
FORK_NETS = [n for n in BY_FAM['btc'] if NETS[n]['forkid'] is not None]
PLAIN_NETS = [n for n in BY_FAM['btc']
              if not NETS[n]['segwit'] and NETS[n]['forkid'] is None]
CASH_NETS = [n for n in BY_FAM['btc'] if NETS[n]['cash_prefix'] is not None]
FAMS = ('btc', 'dcr', 'spr', 'ow', 'sap')


def net_for(rng, fam):
    if fam == 'btc':
        return rng.pick([(3, 'bitcoin_main'), (3, rng.choice(SEGWIT_NETS)),
                         (3, rng.choice(FORK_NETS)),
                         (2, rng.choice(PLAIN_NETS)),
                         (1.5, rng.choice(CASH_NETS))])
    return rng.choice(BY_FAM[fam])


def fam(rng, weights=None):
    w = weights or dict(btc=5, dcr=2, spr=2, ow=2, sap=3)
    return rng.pick([(w[f], f) for f in FAMS if f in w])


def any_net(rng):
    return net_for(rng, fam(rng, dict(btc=6, dcr=2, spr=1, ow=1, sap=1)))


# ------------------------------------------------------------ scripts

def push(b):
    if not b:
        return b'\0'
    if len(b) <= 75:
        return bytes([len(b)]) + b
    if len(b) <= 255:
        return b'\x4c' + bytes([len(b)]) + b
    return b'\x4d' + len(b).to_bytes(2, 'little') + b


def rb(rng, n):
    return rng.getrandbits(8 * n).to_bytes(n, 'big') if n else b''


def redeem_script(rng):
    k = rng.randrange(4)
    if k == 0:
        return (b'\x76\xa9\x14' + rb(rng, 20) + b'\x88\xac')
    if k == 1:
        n = rng.randint(1, 3)
        return (b'\x52' + b''.join(push(b'\2' + rb(rng, 32))
                                   for _ in range(n)) + b'\x53\xae')
    if k == 2:
        return (b'\x63\xa8' + push(rb(rng, 32)) + b'\x88\x76\xa9'
                + push(rb(rng, 20)) + b'\x67' + push(rb(rng, 3))
                + b'\xb1\x75\x76\xa9' + push(rb(rng, 20)) + b'\x68\x88\xac')
    return bytes([rng.choice([0x51, 0x52, 0x60, 0x93, 0x87, 0xac])
                  for _ in range(rng.randint(1, 6))])


def script_sig(rng):
    'hex pair (stack, redeem)'
    k = rng.randrange(10)
    stack = redeem = b''
    if k <= 2:
        pass
    elif k <= 4:
        stack = push(rb(rng, rng.choice([70, 71, 72]))) + push(
            b'\2' + rb(rng, 32))
    elif k <= 6:
        stack = b'\0' + push(rb(rng, 71))
        redeem = push(redeem_script(rng))
    elif k == 7:
        redeem = push(b'\0' + push(rb(rng, rng.choice([20, 32]))))
    elif k == 8:
        n = rng.choice([1, 2, 74, 75, 76, 77, 100, 200, 251, 252, 253, 254,
                        255, 256, 257, 520])
        stack = rb(rng, n)
    else:
        n = rng.choice([1, 75, 76, 80, 255, 256, 520, 999])
        stack = push(rb(rng, n))
        if rng.chance(.5):
            redeem = push(redeem_script(rng) * rng.randint(1, 4))
    if rng.chance(.08):
        # non-minimal pushes
        d = rb(rng, rng.randint(0, 20))
        stack += rng.choice([b'\x4c' + bytes([len(d)]) + d,
                             b'\x4d' + len(d).to_bytes(2, 'little') + d])
    if rng.chance(.04):
        stack = rb(rng, 1650 - len(redeem))
    while len(stack) + len(redeem) > 1650:
        stack = stack[:len(stack) // 2]
    return stack.hex(), redeem.hex()


def out_script(rng, long=False):
    k = rng.randrange(9 if long else 8)
    if k == 0:
        return (b'\x76\xa9\x14' + rb(rng, 20) + b'\x88\xac').hex()
    if k == 1:
        return (b'\xa9\x14' + rb(rng, 20) + b'\x87').hex()
    if k == 2:
        return (b'\x00\x14' + rb(rng, 20)).hex()
    if k == 3:
        return (b'\x00\x20' + rb(rng, 32)).hex()
    if k == 4:
        d = rb(rng, rng.randint(0, 77))
        return (b'\x6a' + push(d)).hex()
    if k == 5:
        return ''
    if k == 6:
        return rb(rng, rng.choice([1, 2, 22, 34, 75, 76, 100, 127, 128, 200,
                                   249, 250, 251])).hex()
    if k == 7:
        return redeem_script(rng).hex()[:502]
    return rb(rng, rng.choice([252, 253, 254, 255, 256, 300, 520, 1000,
                               4000])).hex()


def value(rng):
    v = rng.pick([(3, rng.randint(0, 10 ** 9)), (1, 0), (1, 1), (1, 546),
                  (1, 21 * 10 ** 14), (1, rng.getrandbits(64)),
                  (.3, 2 ** 63 - 1), (.3, 2 ** 63), (.5, 2 ** 64 - 1)])
    return v.to_bytes(8, 'little').hex()


def u32(rng):
    return rng.pick([(3, '00000000'), (1, 'ffffffff'), (1, 'feffffff'),
                     (1, '01000000'), (2, rb(rng, 4).hex())])


def lock(rng):
    return rng.pick([(3, '00000000'), (1, 'ff64cd1d'), (1, '0065cd1d'),
                     (1, 'ffffffff'), (2, rb(rng, 4).hex())])


def txid(rng):
    return rng.pick([(6, rb(rng, 32).hex()), (.2, '00' * 32),
                     (.2, 'ff' * 32)])


def txin(rng):
    if rng.chance(.04):     # coinbase
        return dict(txid='00' * 32, index='ffffffff', seq=u32(rng),
                    stack=rb(rng, rng.randint(1, 100)).hex(), redeem='')
    s, r = script_sig(rng)
    return dict(txid=txid(rng),
                index=rng.pick([(4, bytes([rng.randint(0, 5), 0, 0, 0])
                                 .hex()), (1, rb(rng, 4).hex()),
                                (.3, 'ffffffff')]),
                stack=s, redeem=r, seq=u32(rng))


def txout(rng, long=False):
    return dict(value=value(rng), script=out_script(rng, long))


def wit(rng, big=False):
    n = rng.pick([(2, 0), (2, 1), (4, 2), (2, 3), (1, 4),
                  (.15 if big else 0, rng.choice([252, 253, 254]))])
    items = []
    for _ in range(n):
        ln = rng.pick([(2, 72), (2, 33), (1, 0), (1, 1),
                       (1, rng.randint(0, 120)),
                       (.5, rng.choice([252, 253, 254, 255, 256, 520])),
                       (.05 if big and n < 5 else 0,
                        rng.choice([3600, 65534, 65535, 65536, 65537]))])
        items.append(rb(rng, ln).hex())
    return items


def count(rng, lo=1, big=False, bigs=(252, 253, 254, 255, 256)):
    return rng.pick([(5, max(lo, 1)), (4, 2), (2, 3), (1, 4), (.7, 6),
                     (2 if lo == 0 else 0, 0),
                     (.35 if big else 0, rng.choice(bigs))])


def fixed(rng, layout):
    return {f: rb(rng, n).hex() for f, n in layout}


def js(rng, layout):
    j = fixed(rng, layout)
    j['vold'], j['vnew'] = value(rng), value(rng)
    z = rng.randrange(3)
    if z != 1:
        j['vold'] = '00' * 8
    if z != 0:
        j['vnew'] = '00' * 8
    return j


def btc(rng, net, big=False, long=False, ins=None, outs=None):
    m = dict(fam='btc',
             version=rng.pick([(4, '01000000'), (4, '02000000'),
                               (1, rb(rng, 4).hex())]),
             flag=bool(NETS[net]['segwit']) and rng.chance(.6))
    nb = big
    nin = ins or count(rng, 1, nb)
    nout = outs or count(rng, 1, nb and nin < 10)
    m['ins'] = [txin(rng) for _ in range(nin)]
    m['outs'] = [txout(rng, long) for _ in range(nout)]
    m['wits'] = rng.choice([None, []])
    if m['flag']:
        # with an empty vector of witnesses it is an unsigned segwit tx
        m['wits'] = (rng.choice([None, []]) if rng.chance(.2)
                     else [wit(rng, big and nin < 5) for _ in range(nin)])
        if m['wits'] and big and nin < 5 and rng.chance(.25):
            m['wits'][-1] = [rb(rng, rng.choice([0, 1, 1, 33])).hex()] \
                * rng.choice([255, 256, 500, 513, 1000, 1001, 1024, 1025])
    m['lock'] = lock(rng)
    return m


def dcr(rng, net, big=False, long=False, ins=None, outs=None):
    nin = ins or count(rng, 1, big)
    nout = outs or count(rng, 1, big and nin < 10)
    nw = nin if rng.chance(.9) else rng.randint(0, nin)
    w = []
    for _ in range(nw):
        s, r = script_sig(rng)
        if nin > 20:
            s, r = s[:100], r[:40]
        w.append(dict(value=value(rng), height=rb(rng, 4).hex(),
                      index=rb(rng, 4).hex(), stack=s, redeem=r))
    return dict(
        fam='dcr', version=rng.pick([(4, '01000000'), (1, '02000000'),
                                     (1, rb(rng, 4).hex())]),
        ins=[dict(txid=txid(rng), index=u32(rng),
                  tree=rng.choice(['00', '01', 'ff']), seq=u32(rng))
             for _ in range(nin)],
        outs=[dict(value=value(rng),
                   ver=rng.pick([(3, '0000'), (1, rb(rng, 2).hex())]),
                   script=out_script(rng, long)) for _ in range(nout)],
        lock=lock(rng), expiry=u32(rng), wits=w)


def spr(rng, net, big=False, long=False, ins=None, outs=None):
    v2 = rng.chance(.6)
    njs = rng.pick([(3, 0), (3, 1), (2, 2), (1, 5)]) if v2 else 0
    nin = count(rng, 0 if v2 else 1, big) if ins is None else ins
    nout = count(rng, 0, big and nin < 10) if outs is None else outs
    m = dict(fam='spr', version='02000000' if v2 else '01000000',
             ins=[txin(rng) for _ in range(nin)],
             outs=[txout(rng, long) for _ in range(nout)], lock=lock(rng),
             js=[js(rng, model.JS_S) for _ in range(njs)],
             jspub=None, jssig=None)
    if v2:
        m['jspub'] = rb(rng, 32).hex()
        m['jssig'] = rb(rng, 64).hex() if rng.chance(.8) else ''
    return m


def expiry(rng):
    return rng.pick([(2, 0), (1, 499999999), (3, rng.randint(1, 2000000)),
                     (1, rng.randint(0, 499999999))]).to_bytes(
                         4, 'little').hex()


def ow(rng, net, big=False, long=False, ins=None, outs=None):
    njs = rng.pick([(4, 0), (3, 1), (2, 2), (1, 5)])
    nin = count(rng, 0 if njs else 1, big and njs < 3) if ins is None else ins
    nout = count(rng, 0, big and nin < 10) if outs is None else outs
    m = dict(fam='ow', ins=[txin(rng) for _ in range(nin)],
             outs=[txout(rng, long) for _ in range(nout)], lock=lock(rng),
             expiry=expiry(rng), js=[js(rng, model.JS_S) for _ in range(njs)],
             jspub=None, jssig=None)
    if njs:
        m['jspub'], m['jssig'] = rb(rng, 32).hex(), rb(rng, 64).hex()
    return fit(m)


def sap(rng, net, big=False, long=False, ins=None, outs=None):
    njs = rng.pick([(5, 0), (2, 1), (1, 2), (.5, 5)])
    nss = rng.pick([(4, 0), (4, 1), (2, 2), (1, 3),
                    (.1 if big else 0, rng.choice([252, 253, 255]))])
    nso = rng.pick([(4, 0), (4, 1), (2, 2), (1, 3)]) if nss < 9 else 0
    need = not njs and not nss
    nin = (count(rng, 1 if need else 0, big and njs < 3)
           if ins is None else ins)
    if nss > 9:
        nin, njs = min(nin, 1), 0
    if not nin and not njs and not nss:
        nin = 1
    nout = count(rng, 0, big and nin < 10) if outs is None else outs
    vb = 0
    if nss or nso:
        vb = rng.pick([(3, rng.randint(-10 ** 9, 10 ** 9)), (1, 0),
                       (1, rng.randint(-2 ** 63, 2 ** 63 - 1)),
                       (.5, -2 ** 63), (.5, -1)])
    m = dict(fam='sap', ins=[txin(rng) for _ in range(nin)],
             outs=[txout(rng, long) for _ in range(nout)], lock=lock(rng),
             expiry=expiry(rng),
             vbal=vb.to_bytes(8, 'little', signed=True).hex(),
             ss=[fixed(rng, model.SS) for _ in range(nss)],
             so=[fixed(rng, model.SO) for _ in range(nso)],
             js=[js(rng, model.JS_G) for _ in range(njs)],
             jspub=None, jssig=None, bsig=None)
    if njs:
        m['jspub'], m['jssig'] = rb(rng, 32).hex(), rb(rng, 64).hex()
    if nss or nso:
        m['bsig'] = rb(rng, 64).hex()
    return fit(m)


def fit(m):
    'drop big scripts until within the 100 kB limit'
    while len(model.ser(m)) > 100000:
        for i in m['ins']:
            if 'stack' in i:
                i['stack'], i['redeem'] = i['stack'][:80], ''
        if len(model.ser(m)) > 100000:
            for k in ('ss', 'so', 'outs', 'ins'):
                if len(m.get(k) or ()) > 3:
                    m[k] = m[k][:len(m[k]) * 3 // 4]
                    break
            else:
                break
    return m


MAKERS = dict(btc=btc, dcr=dcr, spr=spr, ow=ow, sap=sap)


def tx(rng, net, big=False, long=False, **k):
    m = MAKERS[fam_of(net)](rng, net, big, long, **k)
    if m['fam'] == 'dcr':
        while len(model.ser(m)) > 100000:
            for o in m['outs']:
                o['script'] = o['script'][:60]
            for w in m['wits']:
                w['stack'], w['redeem'] = w['stack'][:60], ''
    return m


PART_KINDS = {
    'btc': ['outpoint', 'txin', 'txout', 'item', 'wit'],
    'dcr': ['doutpoint', 'dtxin', 'dtxout', 'dwit'],
    'spr': ['outpoint', 'txin', 'txout', 'sproof', 'sjs'],
    'ow': ['outpoint', 'txin', 'txout', 'sproof', 'sjs'],
    'sap': ['outpoint', 'txin', 'txout', 'gproof', 'gjs', 'ss', 'so'],
}


def part(rng, kind, long=False):
    if kind == 'outpoint':
        i = txin(rng)
        return dict(txid=i['txid'], index=i['index'])
    if kind == 'txin':
        return txin(rng)
    if kind == 'txout':
        return txout(rng, long)
    if kind == 'item':
        return rb(rng, rng.choice([0, 1, 33, 72, 251, 252, 253, 254, 255,
                                   256, 520, 65535, 65536])).hex()
    if kind == 'wit':
        return wit(rng, True)
    if kind == 'doutpoint':
        return fixed(rng, model.DOUTPOINT)
    if kind == 'dtxin':
        return dict(fixed(rng, model.DOUTPOINT), seq=u32(rng))
    if kind == 'dtxout':
        return dict(value=value(rng), ver=rb(rng, 2).hex(),
                    script=out_script(rng, long))
    if kind == 'dwit':
        s, r = script_sig(rng)
        return dict(value=value(rng), height=rb(rng, 4).hex(),
                    index=rb(rng, 4).hex(), stack=s, redeem=r)
    if kind in ('sjs', 'gjs'):
        return js(rng, model.JS_S if kind == 'sjs' else model.JS_G)
    return fixed(rng, {'sproof': model.PROOF_S, 'gproof': model.PROOF_G,
                       'ss': model.SS, 'so': model.SO}[kind])


def script_code(rng):
    'length-prepended script code'
    s = rng.choice([
        lambda: b'\x76\xa9\x14' + rb(rng, 20) + b'\x88\xac',
        lambda: redeem_script(rng), lambda: b'',
        lambda: rb(rng, rng.choice([1, 75, 251, 252, 253, 254, 255, 256,
                                    520, 1000]))])()
    return (varint(len(s)) + s).hex()


def human_script(rng):
    'human-readable script text'
    ops = ['OP_DUP', 'OP_HASH160', 'OP_EQUALVERIFY', 'OP_CHECKSIG', 'OP_0',
           'OP_1', 'OP_2', 'OP_16', 'OP_IF', 'OP_ELSE', 'OP_ENDIF',
           'OP_DROP', 'OP_CHECKLOCKTIMEVERIFY', 'OP_CHECKSEQUENCEVERIFY',
           'OP_NOP2', 'OP_NOP3', 'OP_SHA256', 'OP_RETURN', 'OP_CAT',
           'OP_BLAKE256', 'OP_CHECKMULTISIG', 'OP_SUBSTR', 'OP_LEFT',
           'OP_INVERT', 'OP_LSHIFT', 'OP_CHECKDATASIG', 'OP_SSTX',
           'OP_NOP10', 'OP_UNKNOWN', 'OP_CODESEPARATOR', 'OP_PUSHDATA4']
    out = []
    for _ in range(rng.randint(1, 6)):
        if rng.chance(.4):
            out.append(rb(rng, rng.choice([1, 2, 20, 32, 33, 65, 75, 76, 77,
                                           255, 256])).hex())
        else:
            out.append(rng.choice(ops[:28] if rng.chance(.93) else ops))
    return ' '.join(out)


def wide_script(rng, net):
    'script text with many different opcodes of a network'
    table = OPCODES + (DECRED_OPS * 3 if fam_of(net) == 'dcr' else [])
    out = [rng.choice(table) for _ in range(rng.choice([8, 30, 90]))]
    if rng.chance(.3):
        out.insert(rng.randrange(len(out)), rb(rng, 20).hex())
    return ' '.join(out)


def wide_raw(rng):
    'serialized script with many different opcodes, in hex'
    out = bytearray()
    for _ in range(rng.choice([8, 30, 90])):
        out.append(rng.choice([0, rng.randrange(79, 192), 168, 192,
                               rng.randrange(79, 186)]))
    if rng.chance(.3):
        out[0:0] = push(rb(rng, rng.choice([1, 20, 33, 76])))
    return bytes(out).hex()


OPCODES = ('''0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 1NEGATE RESERVED NOP VER
IF NOTIF VERIF VERNOTIF ELSE ENDIF VERIFY RETURN TOALTSTACK FROMALTSTACK 2DROP
2DUP 3DUP 2OVER 2ROT 2SWAP IFDUP DEPTH DROP DUP NIP OVER PICK ROLL ROT SWAP
TUCK CAT SUBSTR LEFT RIGHT SIZE INVERT AND OR XOR EQUAL EQUALVERIFY RESERVED1
RESERVED2 1ADD 1SUB 2MUL 2DIV ABS NOT 0NOTEQUAL ADD SUB MUL DIV MOD LSHIFT
RSHIFT BOOLAND BOOLOR NUMEQUAL NUMEQUALVERIFY NUMNOTEQUAL LESSTHAN GREATERTHAN
LESSTHANOREQUAL GREATERTHANOREQUAL MIN MAX WITHIN RIPEMD160 SHA1 SHA256
HASH160 HASH256 CHECKSIG CHECKSIGVERIFY CHECKMULTISIG CHECKMULTISIGVERIFY NOP1
CHECKLOCKTIMEVERIFY CHECKSEQUENCEVERIFY NOP2 NOP3 NOP4 NOP10''').split()
OPCODES = ['OP_' + _n for _n in OPCODES]
DECRED_OPS = ['OP_BLAKE256', 'OP_SHA256']


def good_script(rng):
    'human-readable script that serializes on every network'
    ops = ['OP_DUP', 'OP_HASH160', 'OP_EQUALVERIFY', 'OP_CHECKSIG', 'OP_0',
           'OP_1', 'OP_2', 'OP_IF', 'OP_ELSE', 'OP_ENDIF', 'OP_DROP',
           'OP_CHECKMULTISIG']
    return ' '.join(rb(rng, rng.choice([1, 20, 32, 33, 65, 80])).hex()
                    if rng.chance(.4) else rng.choice(ops)
                    for _ in range(rng.randint(1, 7)))
