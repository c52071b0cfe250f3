'''Requests to the builder functions (riemann.simple, tx_builder) and a strict
reading of them.

A request is a list of [parameter, value]; a value is an integer, a string,
None or a call expression. want() says what must come of it: a part or a
transaction of this kind and record, these raw bytes, or Bad (refused) or Open
(undocumented), which the caller's reading raises.
'''
from sim import gen, lib, model
from sim.gen import rb
from sim.lib_paths import CLASS_PATH

TX = ('make_tx', 'legacy_tx', 'witness_tx')
FN = dict(make_tx='tb.make_tx', legacy_tx='simple.unsigned_legacy_tx',
          witness_tx='simple.unsigned_witness_tx',
          op_return='tb.make_op_return_output',
          sh='tb.make_sh_output', p2sh='tb.make_p2sh_output',
          p2wsh='tb.make_p2wsh_output', pkh='tb.make_pkh_output',
          p2pkh='tb.make_p2pkh_output', p2wpkh='tb.make_p2wpkh_output',
          witness='tb.make_witness', item='tb.make_witness_stack_item',
          dwit='tb.make_decred_witness', script_sig='tb.make_script_sig',
          prepend='tb.length_prepend', outpoint='simple.outpoint',
          input='simple.unsigned_input', output='simple.output')
PARAMS = dict(
    op_return=['data'], sh=['value', 'output_script', 'witness'],
    p2sh=['value', 'output_script'], p2wsh=['value', 'output_script'],
    pkh=['value', 'pubkey', 'witness'], p2pkh=['value', 'pubkey'],
    p2wpkh=['value', 'pubkey'], witness=['data_list'], item=['data'],
    dwit=['value', 'height', 'index', 'stack_script', 'redeem_script'],
    script_sig=['stack_script', 'redeem_script'], prepend=['byte_string'],
    outpoint=['tx_id', 'index', 'tree'], input=['outpoint', 'sequence'],
    output=['value', 'address'])


def le(h, signed=False):
    return int.from_bytes(bytes.fromhex(h), 'little', signed=signed)


def request(rng, b):
    'b: a lib.Build'
    net = gen.any_net(rng) if rng.chance(.4) else gen.net_for(
        rng, rng.choice(['dcr', 'spr', 'ow', 'sap']))
    fam = model.fam_of(net)
    fn = rng.pick([(4, 'make_tx'), (3, 'legacy_tx'), (2, 'witness_tx')]
                  + [(.7, f) for f in FN if f not in TX])
    val = rng.choice([0, 1, 546, 10 ** 8, 21 * 10 ** 14, 2 ** 63,
                      2 ** 64 - 1, rng.getrandbits(40)])
    key = bytes([rng.choice([2, 3])]) + rb(rng, 32)
    if rng.chance(.3):
        key = b'\4' + rb(rng, 64)
    text = gen.good_script(rng)
    if fn in TX:
        if fn == 'witness_tx':
            net = rng.choice(gen.SEGWIT_NETS)
            fam = model.fam_of(net)
        m = gen.tx(rng, net, ins=rng.pick([(3, None), (3, rng.randint(1, 2))]
                                          ))
        b_in, b_out = (b.dtxin, b.dtxout) if fam == 'dcr' else (b.txin,
                                                                b.txout)
        if fn == 'witness_tx' and rng.chance(.04):
            m['ins'] = m['ins'][:1] * rng.choice([250, 252, 253, 254, 256,
                                                  257, 300])
            m['ins'] = [dict(i, stack='', redeem='') for i in m['ins']]
        p = [['version', le(m['version']) if fam not in ('ow', 'sap')
              else rng.choice([0, 2, None])],
             ['tx_ins', b.s(b_in(i) for i in m['ins'])],
             ['tx_outs', b.s(b_out(o) for o in m['outs'])],
             ['lock_time', le(m['lock'])]]
        if rng.chance(.25):
            p[0][1] = rng.choice([0, 1, 2, 2 ** 31, 2 ** 32 - 1])
        if fam in ('dcr', 'ow', 'sap') and fn != 'witness_tx':
            p.append(['expiry', le(m['expiry'])])
        if fn == 'make_tx' and fam in ('btc', 'dcr') and (
                m['wits'] or m.get('flag') or rng.chance(.3)):
            p.append(['tx_witnesses', None if m['wits'] is None else b.s(
                (b.dwit if fam == 'dcr' else b.wit)(w) for w in m['wits'])])
        if fam in ('spr', 'ow', 'sap'):
            js = m.get('js') or []
            if js or rng.chance(.8):
                p.append(['tx_joinsplits', b.s(
                    (b.gjs if fam == 'sap' else b.sjs)(j) for j in js)])
            for k, n in (('jspub', 'joinsplit_pubkey'),
                         ('jssig', 'joinsplit_sig')):
                if m.get(k) is not None:
                    p.append([n, b.b(m[k])])
        if fam == 'sap' and fn == 'make_tx':
            p += [['value_balance', le(m['vbal'], True)],
                  ['tx_shielded_spends', b.s(b.ss(x) for x in m['ss'])],
                  ['tx_shielded_outputs', b.s(b.so(x) for x in m['so'])],
                  ['binding_sig', m['bsig'] and b.b(m['bsig'])]]
        if fn != 'make_tx' and rng.chance(.3):
            p = [x for x in p if x[0] not in ('version', 'lock_time',
                                              'expiry') or rng.chance(.5)]
    elif fn in ('op_return', 'item', 'prepend'):
        n = rng.choice([0, 1, 20, 74, 75, 76, 77, 78, 80, 252, 253, 255, 256,
                        rng.randrange(78)])
        p = [[PARAMS[fn][0], b.b(rb(rng, n).hex())]]
    elif fn in ('sh', 'p2sh', 'p2wsh'):
        p = [['value', val], ['output_script', text]]
    elif fn in ('pkh', 'p2pkh', 'p2wpkh'):
        p = [['value', val], ['pubkey', b.b(key.hex())]]
    elif fn == 'witness':
        p = [['data_list', b.s(b.b(rb(rng, rng.choice(
            [0, 1, 33, 71, 252, 253, 256])).hex()) for _ in range(
                rng.choice([0, 1, 2, 3, 5, 252, 253])))]]
    elif fn == 'dwit':
        net = gen.net_for(rng, 'dcr')
        p = [list(x) for x in zip(PARAMS[fn], b.dwit(
            gen.part(rng, 'dwit'))['a'])]
    elif fn == 'script_sig':
        p = [['stack_script', gen.good_script(rng)], ['redeem_script', text]]
        if rng.chance(.2):
            p[rng.randrange(2)][1] = rng.choice(['', '51', 'OP_1', ' OP_0 '])
    elif fn == 'outpoint':
        t = rb(rng, 32).hex()
        p = [['tx_id', t.upper() if rng.chance(.2) else '00' * 4 + t[8:]
              if rng.chance(.3) else t], ['index', rng.choice(
                  [0, 1, 255, 256, 2 ** 32 - 1, rng.getrandbits(32)])]]
        if fam == 'dcr' or rng.chance(.1):
            p.append(['tree', rng.choice([0, 1, 255, None])])
    elif fn == 'input':
        m = gen.part(rng, 'doutpoint' if fam == 'dcr' else 'outpoint')
        p = [['outpoint', (b.doutpoint if fam == 'dcr' else b.outpoint)(m)]]
        if rng.chance(.7):
            p.append(['sequence', rng.choice([0, 1, 2 ** 31, 2 ** 32 - 2,
                                              2 ** 32 - 1])])
    else:
        n = gen.NETS[net]
        k = rng.choice(['p2pkh', 'p2sh']
                       + ['cash_pkh', 'cash_sh'] * bool(n['cash_prefix'])
                       + ['p2wpkh', 'p2wsh'] * bool(n['segwit']))
        p = [['value', val], ['address', model.make_address(
            net, k, rb(rng, 32 if k == 'p2wsh' else 20))]]
    if fn in ('sh', 'pkh') and rng.chance(.6):
        p.append(['witness', rng.chance(.6)])
    return dict(net=net, fn=fn, p=p)


def hurt(rng):
    'damage of a number or text among the parameters'
    return dict(at=rng.random(), v=rng.choice(
        [-1, -2 ** 63, -2 ** 63 - 1, 2 ** 8, 2 ** 16, 2 ** 31, 2 ** 32,
         2 ** 32 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 2 ** 72, 0,
         500000000, 499999999, None, 'text']), c=rng.random(),
        how=rng.choice(['cut', 'add', 'subst', 'drop', 'zero', '0x', 'dup',
                        'omit', 'omit']),
        ch=rng.choice('0123456789abcdefgx_'))


def bend(p, d):
    p = [list(x) for x in p]
    at = [i for i, (_, v) in enumerate(p)
          if not isinstance(v, dict) and not isinstance(v, bool)]
    if not at:
        return p, 'nothing'
    i = at[int(d['at'] * len(at))]
    v = p[i][1]
    if d['how'] == 'omit':
        return p[:i] + p[i + 1:], 'parameter omitted'
    if not isinstance(v, str):
        if d['v'] == 'text' and v is not None:
            p[i][1] = str(v)
            return p, 'text for a number'
        if d['v'] is None and v is None:
            return p, 'nothing'
        p[i][1] = d['v'] if d['v'] != 'text' else {'h': '01'}
        return p, 'number'
    j = int(d['c'] * len(v))
    p[i][1] = dict(cut=v[:j], add=v + d['ch'], drop=v[:j] + v[j + 1:],
                   subst=v[:j] + d['ch'] + v[j + 1:], zero='00' + v,
                   dup=v + v).get(d['how'], '0x' + v)
    return p, 'text ' + d['how']


def expr(fn, p):
    return {'f': FN[fn], 'a': [], 'k': {k: v for k, v in p}}


# ------------------------------------------------------- the strict reading

def want(fn, p, net, Bad, Open, leaf, verdict):
    'what must come of it: [kind, record], or raw bytes'
    fam = model.fam_of(net)
    P = dict(p)
    names = PARAMS.get(fn)
    if names and not set(P) >= set(names) - {'witness', 'tree', 'sequence'}:
        raise Bad('parameter missing')

    def num(name, k, default=None, signed=False):
        v = P.get(name, default)
        if type(v) is not int:
            raise Bad('not a number')
        try:
            return {'h': v.to_bytes(k, 'little', signed=signed).hex()}
        except OverflowError:
            raise Bad('%s does not fit' % name)

    def read(x):
        v = verdict(x, net)
        if v[0] == 'bad':
            raise Bad(v[1])
        if v[0] == 'open':
            raise Open(v[1])
        return v[1:]

    def mk(kind, *args):
        return read({'f': CLASS_PATH[kind], 'a': list(args)})

    def pays(script):
        value = num('value', 8)
        if fam == 'dcr':
            return mk('dtxout', value, {'h': '0000'}, {'h': script.hex()})
        return mk('txout', value, {'h': script.hex()})

    def text(v):
        from sim.checks import c15
        if not isinstance(v, str):
            raise Bad('not text')
        try:
            return c15.bytes_of(c15.read_text(net, v))
        except c15.Refused as e:
            raise Bad(str(e))
        except c15.Open:
            raise Open('script')

    if fn in TX:
        return read(tx(fn, P, net, fam, num, Bad, Open))
    if fn == 'op_return':
        if P['data'] == '':
            raise Open('an empty sequence of another type')
        d = bytes.fromhex(leaf(P['data']))
        if len(d) > 77:
            raise Bad('too long')
        s = b'\x6a' + (b'\x4c' if len(d) > 75 else b'') + bytes([len(d)]) + d
        P['value'] = 0
        return pays(s)
    if fn in ('sh', 'p2sh', 'p2wsh', 'pkh', 'p2pkh', 'p2wpkh'):
        w = P.get('witness', fn[:3] == 'p2w')
        if w and not gen.NETS[net]['segwit']:
            raise Bad('no witnesses here')
        if 'pk' in fn:
            h = model.hash160(bytes.fromhex(leaf(P['pubkey'])), net)
            return pays(model.script_for('p2wpkh' if w else 'p2pkh', h))
        s = text(P['output_script'])
        return pays(model.script_for('p2wsh', model.sha256(s)) if w else
                    model.script_for('p2sh', model.hash160(s, net)))
    if fn == 'witness':
        x = P['data_list']
        if not isinstance(x, dict) or not ('l' in x or 't' in x):
            raise Open('another kind of sequence')
        x = x.get('l', x.get('t'))
        return mk('wit', {'l': [{'f': CLASS_PATH['item'], 'a': [y]}
                                for y in x]})
    if fn == 'item':
        return mk('item', P['data'])
    if fn == 'dwit':
        return mk('dwit', *[P[n] for n in PARAMS[fn]])
    if fn == 'script_sig':
        s, r = text(P['stack_script']), text(P['redeem_script'])
        if len(r) > 1000:
            raise Open('long redeem script')
        return s + (gen.push(r) if r else b'')
    if fn == 'prepend':
        x = P['byte_string']
        d = leaf(x)
        if 'ba' in x:
            raise Open('a bytearray')
        return gen.varint(len(d) // 2) + bytes.fromhex(d)
    if fn == 'outpoint':
        t = P['tx_id']
        if not isinstance(t, str) or any(c.isspace() for c in t):
            raise Bad('not an id') if not isinstance(t, str) else Open('')
        try:
            t = bytes.fromhex(t)[::-1].hex()
        except ValueError:
            raise Bad('not hex')
        i = num('index', 4)
        if fam == 'dcr':
            tree = {'h': '00'} if P.get('tree') is None else num('tree', 1)
            return mk('doutpoint', {'h': t}, i, tree)
        return mk('outpoint', {'h': t}, i)
    if fn == 'input':
        seq = num('sequence', 4, 0xfffffffe)
        if fam == 'dcr':
            return mk('dtxin', P['outpoint'], seq)
        return mk('txin', P['outpoint'], {'h': ''}, {'h': ''}, seq)
    a = P['address']
    if not isinstance(a, str):
        raise Bad('not an address')
    ok = {model.script_for(*d) for d in model.destination(net, a)}
    if len(ok) > 1:
        raise Open('two readings')
    if not ok:
        raise Bad('not an address')
    return pays(ok.pop())


def tx(fn, P, net, fam, num, Bad, Open):
    'the constructor call a transaction request stands for'
    if 'tx_ins' not in P or 'tx_outs' not in P:
        raise Bad('parameter missing')
    if fn != 'make_tx':
        P.setdefault('version', 2)
        P.setdefault('lock_time', 0)
        if fn == 'legacy_tx':
            P.setdefault('expiry', 0)
            P.setdefault('tx_joinsplits', {'l': []})
            if fam == 'btc' and P['expiry'] != 0:
                raise Open('an expiry where there is none')
        else:
            x = P['tx_ins']
            if fam != 'btc':
                raise Open('no witnesses here')
            if not isinstance(x, dict) or not ('l' in x or 't' in x):
                raise Open('another kind of sequence')
            n = len(x.get('l', x.get('t')))
            P['tx_witnesses'] = {'l': [
                {'f': CLASS_PATH['wit'], 'a': [{'l': []}]}] * n}
            for k in set(P) - {'version', 'tx_ins', 'tx_outs', 'lock_time',
                               'tx_witnesses'}:
                del P[k]
    elif 'version' not in P or 'lock_time' not in P:
        raise Bad('parameter missing')
    used = dict(btc='tx_witnesses', dcr='expiry tx_witnesses',
                spr='tx_joinsplits joinsplit_pubkey joinsplit_sig',
                ow='expiry tx_joinsplits joinsplit_pubkey joinsplit_sig',
                sap='expiry tx_joinsplits joinsplit_pubkey joinsplit_sig '
                'value_balance tx_shielded_spends tx_shielded_outputs '
                'binding_sig')[fam].split()
    for k, v in P.items():
        if k not in used + ['version', 'tx_ins', 'tx_outs', 'lock_time'] \
                and v not in (None, 0, {'l': []}, {'t': []}):
            raise Open('parameters of another chain')

    def seq(name):
        v = P.get(name)
        return {'l': []} if v is None else v

    def mk(kind, *a):
        return {'f': CLASS_PATH[kind], 'a': list(a)}
    ins, outs = P['tx_ins'], P['tx_outs']
    js = [seq('tx_joinsplits'), P.get('joinsplit_pubkey'),
          P.get('joinsplit_sig')]
    if fam == 'spr':
        if P.get('tx_joinsplits') is None:
            raise Open('no joinsplits')
        v = P['version']
        v = v if isinstance(v, dict) else num('version', 4)
        return mk('spr', v, ins, outs, num('lock_time', 4), *js)
    lock = num('lock_time', 4)
    if fam == 'ow':
        return mk('ow', ins, outs, lock, num('expiry', 4), *js)
    if fam == 'sap':
        return mk('sap', ins, outs, lock, num('expiry', 4),
                  num('value_balance', 8, 0, True),
                  seq('tx_shielded_spends'), seq('tx_shielded_outputs'), *js,
                  P.get('binding_sig'))
    version = num('version', 4)
    w = P.get('tx_witnesses')
    if fam == 'dcr':
        if isinstance(w, dict) and w.get('f') == CLASS_PATH['dwit']:
            w = {'l': [w]}
        return mk('dcr', version, ins, outs, lock, num('expiry', 4),
                  {'l': []} if w is None else w)
    if w is not None and not gen.NETS[net]['segwit']:
        raise Open('witnesses on a network without')
    return mk('btc', version, None if w is None else {'h': '0001'}, ins,
              outs, w, lock)
