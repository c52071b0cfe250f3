'''C13: chains are never mixed up across network switches.

One session serves several chains. It switches the selected network between
any two calls (also to networks that do not exist, and with the switch
interrupted at a chosen step), and builds, decodes, copies and assembles
transactions and parts of Decred, Zcash Sprout, Overwinter, Sapling and
Bitcoin-like chains: fresh, from bytes delivered to the wrong decoder, and
from objects carried over from before the switch. Oracle: what the selected
network (as the library reports it) allows; what is allowed must give exactly
what a model says, what is not must be refused, and refusals change nothing.
'''
from sim import edits, gen, lib, model, trace, wire
from sim.gen import rb

ID = 'C13'
RUNS = dict(quick=6000, thorough=300000)
COMPONENTS = dict(real=['riemann: network selection, all transaction and part '
                        'classes, builders'],
                  stub=['session driver, interruption of a switch'])
NONTRIVIAL = 'something was accepted and something refused after a switch'
STATES = 'digest of (operation, class, its chain, selected network)'

CHAIN = dict(dcr='decred', spr='zcash_sprout', ow='zcash_overwinter',
             sap='zcash_sapling')
PART_CHAIN = dict(doutpoint='decred', dtxin='decred', dtxout='decred',
                  dwit='decred', sproof='zcash', sjs='zcash', gproof='zcash',
                  gjs='zcash', ss='zcash', so='zcash')
PARTS = dict(dcr=['doutpoint', 'dtxin', 'dtxout', 'dwit'],
             spr=['sproof', 'sjs'], ow=['sproof', 'sjs'],
             sap=['gproof', 'gjs', 'ss', 'so'])


def gen_(rng, tier):
    special = rng.sample(['dcr', 'spr', 'ow', 'sap'], rng.randint(1, 3))
    nets = [gen.net_for(rng, f) for f in special]
    while len(nets) < rng.randint(2, 5):
        nets.append(gen.net_for(rng, rng.choice(
            ['btc', 'btc', 'dcr', 'spr', 'ow', 'sap'])))
    fams = special + ['btc']
    ms = []
    for _ in range(rng.randint(2, 4)):
        f = rng.choice(fams)
        net = rng.choice([n for n in nets if model.fam_of(n) == f]
                         or [gen.net_for(rng, f)])
        ms.append(gen.tx(rng, net, ins=rng.randint(1, 3),
                         outs=rng.randint(1, 3)))
    steps, slots = [], []
    for s in range(rng.randint(8, 30)):
        k = rng.pick([(6, 'switch'), (3, 'make'), (2, 'part'), (2, 'decode'),
                      (4, 'copy'), (1.5, 'carry'), (2, 'builder'),
                      (1, 'makepart')])
        i = rng.randrange(len(ms))
        st = dict(do=k, i=i)
        if k == 'switch':
            st['net'] = rng.choice(nets)
            if rng.chance(.12):
                st['net'] = rng.choice(['nosuch', '', 'decred', 'Bitcoin_main',
                                        'zcash_sapling', 'bitcoin_mainx'])
            elif rng.chance(.12):
                st['int'] = rng.random()
                st['mode'] = rng.choice(['line', 'opcode'])
        elif k in ('part', 'makepart'):
            f = rng.choice(special)
            kind = rng.choice(PARTS[f])
            st.update(kind=kind, v=gen.part(rng, kind),
                      via=rng.choice(['bytes', 'hex']))
        elif k == 'decode':
            st['as'] = (ms[i]['fam'] if rng.chance(.5)
                        else rng.choice(['spr', 'ow', 'sap']))
            st['via'] = rng.choice(['bytes', 'hex', 'bytearray'])
        elif k == 'copy':
            st['slot'] = rng.random()
            if rng.chance(.5):
                st['edit'] = edits.edit(rng, ms[i])
        elif k == 'carry':
            st['slot'] = rng.random()
            st['into'] = rng.choice(fams)
            st['part'] = rng.choice(['tx', 'tx', 'in', 'outpoint'])
        elif k == 'builder':
            st['fn'] = rng.choice(['outpoint', 'legacy', 'witness', 'output',
                                   'tx', 'full', 'full', 'full', 'simple',
                                   'swit', 'simple_outpoint'])
            st['opt'] = [rng.randrange(4) for _ in range(8)]
            st['a'] = [rng.randrange(2 ** 32), rng.randrange(2 ** 31),
                       rb(rng, 32).hex(), rb(rng, 20).hex()]
        steps.append(st)
    return dict(nets=nets, ms=ms, steps=steps)


class Stop(BaseException):
    pass


def match(chain, name):
    return name.startswith(chain)


def assemble(fam, o, m, like):
    'a transaction of class fam from the parts of object o'
    seq = list
    c = lib.cls(fam)
    b = bytes.fromhex
    if fam == 'btc':
        return c(b('01000000'), None, seq(o.tx_ins), seq(o.tx_outs), None,
                 b(m['lock']))
    if fam == 'dcr':
        return c(b('01000000'), seq(o.tx_ins), seq(o.tx_outs), b(m['lock']),
                 b('00000000'), seq(lib.attr(o, 'tx_witnesses') or ()))
    if fam == 'spr':
        return c(b('01000000'), seq(o.tx_ins), seq(o.tx_outs), b(m['lock']),
                 [], None, None)
    if fam == 'ow':
        return c(seq(o.tx_ins), seq(o.tx_outs), b(m['lock']), b('00000000'),
                 [], None, None)
    return c(seq(o.tx_ins), seq(o.tx_outs), b(m['lock']), b('00000000'),
             b('00' * 8), [], [], [], None, None, None)


def carried(fam, m):
    'record of what assemble() makes of m'
    d = dict(fam=fam, ins=m['ins'], outs=m['outs'], lock=m['lock'])
    if fam == 'btc':
        return dict(d, version='01000000', flag=False, wits=[])
    if fam == 'dcr':
        return dict(d, version='01000000', expiry='00000000', wits=m['wits'])
    d.update(js=[], jspub=None, jssig=None)
    if fam == 'spr':
        return dict(d, version='01000000')
    d['expiry'] = '00000000'
    if fam == 'sap':
        d.update(vbal='00' * 8, ss=[], so=[], bsig=None)
    return d


def execute(sc, res):
    ms = sc['ms']
    for m in ms:
        assert model.sane(m)
    slots = []          # (fam, object, record)
    pslots = []         # (kind, object, value)
    lib.select(sc['nets'][0])
    cur = sc['nets'][0]
    accepted = refused = switched = 0

    def attempt(fn):
        res.real_calls += 1
        try:
            return fn(), None
        except Exception as e:
            return None, lib.exc(e, True)

    def judge(what, st, must, o, err, check=None):
        '''must: True accept, False refuse, None either; check(o) gives what
        is wrong with an accepted one'''
        nonlocal accepted, refused
        res.ev(what, cur, 'ok' if err is None else err[1])
        if err is None:
            accepted += 1
            if must is False:
                res.fail('accepted under the wrong chain', what=what,
                         net=cur, got=lib.canon(o))
            elif check:
                bad = check(o)
                if bad:
                    res.fail('not what was asked for', what=what, net=cur,
                             wrong=bad)
        else:
            refused += 1
            if must is True:
                res.fail('refused under its own chain', what=what, net=cur,
                         error=err)
            if must is False:
                res.fault('wrong_chain_refused')

    def same_tx(fam, m):
        def check(o):
            if type(o) is not lib.cls(fam):
                return type(o).__name__
            if o.to_bytes() != model.ser(m):
                return dict(got=o.hex(), want=model.ser(m).hex())
            if lib.read(o, fam) != lib.want(m):
                return dict(got=lib.read(o, fam), want=lib.want(m))
            if lib.got_ids(o) != model.ids(m, cur):
                return dict(got=lib.got_ids(o), want=model.ids(m, cur))
        return check

    def allowed(fam, m=None):
        if fam == 'btc':
            if model.fam_of(cur) != 'btc':
                return None
            if m and m['flag'] and not gen.NETS[cur]['segwit']:
                return None
            return True
        return match(CHAIN[fam], cur)

    for s, st in enumerate(sc['steps']):
        do = st['do']
        if st['i'] >= len(ms):
            continue
        m = ms[st['i']]
        fam = m['fam']
        if do == 'switch':
            if 'int' in st:
                def act():
                    raise Stop()
                inj = trace.Injector(int(st['int'] * 12), act,
                                     st.get('mode', 'line'))
                try:
                    inj.run(lambda: lib.select(st['net']))
                except Stop:
                    res.fault('switch_interrupted')
                now = lib.riemann.get_current_network_name()
                if now not in (cur, st['net']):
                    res.fail('torn switch', got=now, net=cur)
            else:
                _, err = attempt(lambda: lib.select(st['net']))
                now = lib.riemann.get_current_network_name()
                known = st['net'] in gen.NETS
                if err is not None:
                    res.fault('switch_refused')
                if (err is None) != known or now != (
                        st['net'] if known else cur):
                    res.fail('switch', to=st['net'], got=now, net=cur,
                             error=err)
            switched += now != cur
            cur = now
            res.ev('switch', cur)
        elif do == 'make':
            o, err = attempt(lambda: edits.build_from(m))
            judge('make ' + fam, st, allowed(fam, m), o, err,
                  same_tx(fam, m))
            if err is None:
                slots.append((fam, o, m))
        elif do == 'makepart':
            kind = st['kind']
            o, err = attempt(lambda: lib.ev(
                getattr(lib.Build(), kind)(st['v'])))
            ok = match(PART_CHAIN[kind], cur)
            judge('make ' + kind, st, ok, o, err)
            if err is None:
                pslots.append((kind, o, st['v']))
        elif do == 'part':
            kind = st['kind']
            if kind == 'dwit':
                continue            # has no decoder
            raw = wire.part_raw(kind, st['v'])
            o, err = attempt(lambda: wire.decode(kind, raw, st['via']))
            ok = match(PART_CHAIN[kind], cur)
            judge('decode ' + kind, st, ok, o, err,
                  lambda o: o.to_bytes() != raw and o.hex())
            if err is None:
                pslots.append((kind, o, st['v']))
        elif do == 'decode':
            k = st['as']
            if k == 'dcr' or fam == 'dcr' and k != 'dcr':
                if k == 'dcr':
                    continue        # has no decoder
            o, err = attempt(lambda: wire.decode(k, model.ser(m), st['via']))
            ok = allowed(k, m)
            if k == 'btc' and fam != 'btc':
                ok = None
            elif k != fam and fam in CHAIN and fam != 'dcr':
                ok = False          # another format's bytes
            elif k != fam:
                ok = None if ok else False
            judge('decode %s as %s' % (fam, k), st, ok, o, err,
                  same_tx(fam, m) if k == fam else None)
            if err is None and k == fam:
                slots.append((fam, o, m))
        elif do == 'copy':
            some = slots + pslots
            if not some:
                continue
            k, o, v = some[int(st['slot'] * len(some))]
            if k in wire.TXK:
                raw = o.to_bytes()
                e = st.get('edit')
                if e is not None and v is not m:
                    e = None
                wrong = []
                if e is None:
                    c, err = attempt(lambda: o.copy())
                    m2 = v
                else:
                    m2 = edits.apply(v, e)
                    assert model.sane(m2)
                    c, err = attempt(lambda: edits.apply_lib(
                        o, k, e, wrong))
                judge('copy ' + k, st, allowed(k, v), c, err,
                      same_tx(k, m2))
                if o.to_bytes() != raw or lib.read(o, k) != lib.want(v):
                    res.fail('original changed', what=k, net=cur)
            elif k in edits.PART:
                c, err = attempt(lambda: o.copy())
                judge('copy ' + k, st, match(PART_CHAIN[k], cur), c, err,
                      lambda c: c != o)
        elif do == 'carry':
            if not slots:
                continue
            k, o, v = slots[int(st['slot'] * len(slots))]
            into = st['into']
            if st['part'] == 'tx':
                c, err = attempt(lambda: assemble(into, o, v, None))
                ok = allowed(into)
                if (into == 'dcr') != (k == 'dcr'):
                    ok = False      # parts of another chain
                if ok and (not v['ins'] or (into in ('btc', 'dcr')
                                            and not v['outs'])):
                    ok = None
                judge('assemble %s from %s' % (into, k), st, ok, c, err,
                      same_tx(into, carried(into, v)) if ok else None)
            elif v['ins']:
                tx_in = o.tx_ins[0]
                kind = 'dtxin' if into == 'dcr' else 'txin'
                mixed = (into == 'dcr') != (k == 'dcr')
                op = tx_in.outpoint
                if into == 'dcr':
                    c, err = attempt(lambda: lib.cls('dtxin')(
                        op, b'\1\2\3\4'))
                    ok = match('decred', cur) and not mixed
                else:
                    c, err = attempt(lambda: lib.cls('txin')(
                        op, b'', b'', b'\1\2\3\4'))
                    ok = not mixed
                judge('%s from %s outpoint' % (kind, k), st, ok, c, err,
                      lambda c: c.to_bytes()[:len(op)] != op.to_bytes())
        elif do == 'builder':
            if st['fn'] in ('full', 'swit'):
                mine = [x for x in ms if x['fam'] == model.fam_of(cur)]
                if mine:
                    full(st, mine[st['i'] % len(mine)], cur, attempt, judge,
                         same_tx)
                continue
            builder(st, m, cur, attempt, judge, same_tx, res)
        res.state(do, fam, st.get('kind'), st.get('as'), st.get('into'),
                  st.get('fn'), cur)
        res.simtime += 10
        if lib.riemann.get_current_network_name() != cur:
            res.fail('selected network changed', net=cur, step=s)
        if res.violations:
            break
    res.nontrivial = bool(switched and accepted and refused)


def full(st, m, cur, attempt, judge, same_tx):
    '''a whole transaction of the selected chain through make_tx or simple;
    what is absent from it is left out, passed as None or as an empty
    vector'''
    tb, simple = lib.riemann.tx.tx_builder, lib.riemann.simple
    f, b, opt = m['fam'], lib.Build(), iter(st['opt'] * 4)
    h = bytes.fromhex

    def num(x):
        return int.from_bytes(h(x), 'little')

    def objs(build, vs):
        return [lib.ev(build(v)) for v in vs]

    def put(kw, name, x, empty):
        how = next(opt)
        if x or how == 0 or x == b'':
            kw[name] = (tuple(x) if isinstance(x, list) and how == 1
                        else x if x is not None else empty)
        elif how == 1:
            kw[name] = None
    if f == 'btc' and m['flag'] and not gen.NETS[cur]['segwit']:
        return
    if m.get('flag') and m['wits'] is None:
        return                  # make_tx has no way to say this
    if not m['ins'] and f in ('btc', 'dcr') or not m['outs'] and f == 'btc':
        return
    kw = dict(version=num(m['version']) if 'version' in m else
              [None, 4, 7, b''][next(opt)], lock_time=num(m['lock']))
    kw['tx_ins'] = objs(b.dtxin if f == 'dcr' else b.txin, m['ins'])
    kw['tx_outs'] = objs(b.dtxout if f == 'dcr' else b.txout, m['outs'])
    if 'expiry' in m:
        kw['expiry'] = num(m['expiry'])
    if st['fn'] == 'swit':
        if f != 'btc' or not gen.NETS[cur]['segwit']:
            return
        m = dict(m, flag=True, wits=[[] for _ in m['ins']])
        for k, dflt in (('version', '02000000'), ('lock_time', '00000000')):
            if next(opt) == 0:
                del kw[k]
                m['lock' if k == 'lock_time' else k] = dflt
        o, err = attempt(lambda: simple.unsigned_witness_tx(**kw))
        judge('unsigned_witness_tx', st, True, o, err, same_tx(f, m))
        return
    if f == 'btc':
        if m['flag']:
            kw['tx_witnesses'] = [lib.ev(b.wit(w)) for w in m['wits']]
        elif next(opt) == 1:
            kw['tx_witnesses'] = None
    elif f == 'dcr':
        ws = objs(b.dwit, m['wits'])
        if len(ws) == 1 and next(opt) < 2:
            kw['tx_witnesses'] = ws[0]
        else:
            put(kw, 'tx_witnesses', ws, [])
    else:
        js = objs(b.gjs if f == 'sap' else b.sjs, m['js'])
        if f == 'spr':
            kw['tx_joinsplits'] = js
        else:
            put(kw, 'tx_joinsplits', js, [])
        for k, n in (('jspub', 'joinsplit_pubkey'), ('jssig',
                                                     'joinsplit_sig')):
            put(kw, n, None if m[k] is None else h(m[k]), None)
        if f == 'spr' and next(opt) == 2:
            kw['version'] = h(m['version'])
        if f == 'sap':
            put(kw, 'tx_shielded_spends', objs(b.ss, m['ss']), [])
            put(kw, 'tx_shielded_outputs', objs(b.so, m['so']), [])
            put(kw, 'binding_sig', m['bsig'] and h(m['bsig']), None)
            v = int.from_bytes(h(m['vbal']), 'little', signed=True)
            if v or next(opt) == 0:
                kw['value_balance'] = v
    if f in ('ow', 'spr', 'btc', 'dcr') and next(opt) == 3 and \
            not (f == 'btc' and m['flag']) and not (f == 'dcr' and
                                                    m['wits']):
        kw.pop('tx_witnesses', None)
        kw = {k: v for k, v in kw.items()
              if v is not None or k != 'tx_joinsplits'}
        for k, dflt, rec in (('lock_time', '00000000', 'lock'),
                             ('expiry', '00000000', 'expiry'),
                             ('version', '02000000', 'version')):
            if rec in m and f != 'spr' and next(opt) == 0:
                kw.pop(k)
                m = dict(m, **{rec: dflt})
        if f == 'spr' and not isinstance(kw['version'], int):
            kw['version'] = num(m['version'])
        o, err = attempt(lambda: simple.unsigned_legacy_tx(**kw))
        judge('unsigned_legacy_tx', st, True, o, err, same_tx(f, m))
        return
    o, err = attempt(lambda: tb.make_tx(**kw))
    judge('make_tx', st, True, o, err, same_tx(f, m))


def builder(st, m, cur, attempt, judge, same_tx, res):
    tb, simple = lib.riemann.tx.tx_builder, lib.riemann.simple
    num, idx, h32, h20 = st['a']
    d = cur.startswith('decred')
    fn = st['fn']
    txid = bytes.fromhex(h32)

    def kind(k, raw):
        def check(o):
            if type(o) is not lib.cls(k) or o.to_bytes() != raw:
                return [type(o).__name__, o.hex(), k, raw.hex()]
        return check
    i4 = idx.to_bytes(4, 'little')
    op_raw = txid + i4 + (b'\0' if d else b'')
    n4 = num.to_bytes(4, 'little')
    if fn in ('outpoint', 'simple_outpoint'):
        if fn == 'outpoint':
            o, err = attempt(lambda: tb.make_outpoint(txid, idx))
        else:
            o, err = attempt(lambda: simple.outpoint(txid[::-1].hex(), idx))
        judge(fn, st, True, o, err, kind(
            'doutpoint' if d else 'outpoint', op_raw))
    elif fn in ('legacy', 'witness'):
        def go():
            op = tb.make_outpoint(txid, idx)
            if fn == 'legacy':
                return simple.unsigned_input(op, num)
            return tb.make_witness_input(op, num)
        o, err = attempt(go)
        judge(fn + ' input', st, True, o, err, kind(
            'dtxin' if d else 'txin', op_raw + (b'' if d else b'\0') + n4))
    elif fn == 'output':
        val, s = idx.to_bytes(8, 'little'), bytes.fromhex(h20)
        if d:
            o, err = attempt(lambda: tb._make_output(val, s, b'\0\0'))
            raw = val + b'\0\0' + bytes([len(s)]) + s
        else:
            o, err = attempt(lambda: tb._make_output(val, s))
            raw = val + bytes([len(s)]) + s
        judge('output', st, True, o, err, kind(
            'dtxout' if d else 'txout', raw))
    elif fn in ('tx', 'simple'):
        f = model.fam_of(cur)
        b = lib.Build()
        if m['fam'] == 'dcr' or d:
            if m['fam'] != 'dcr' or not d or len(m['wits']) != 1:
                return
            ins = [lib.ev(b.dtxin(i)) for i in m['ins']]
            outs = [lib.ev(b.dtxout(o)) for o in m['outs']]
            w = lib.ev(b.dwit(m['wits'][0]))
            want = dict(m, version=n4.hex(), lock='01000000',
                        expiry='02000000')
            o, err = attempt(lambda: tb.make_tx(num, ins, outs, 1, 2,
                                                tx_witnesses=w))
            judge('make_tx', st, True, o, err, same_tx('dcr', want))
            return
        ins = [lib.ev(b.txin(i)) for i in m['ins']]
        outs = [lib.ev(b.txout(o)) for o in m['outs']]
        if not ins or not outs:
            return
        base = dict(ins=m['ins'], outs=m['outs'], lock='01000000')
        z = dict(base, js=[], jspub=None, jssig=None)
        if fn == 'simple':
            want = {'btc': dict(base, fam='btc', flag=False, wits=[],
                                version=n4.hex()),
                    'ow': dict(z, fam='ow', expiry='00000000')}.get(f)
            o, err = attempt(lambda: simple.unsigned_legacy_tx(
                ins, outs, version=num, lock_time=1))
            if want:
                judge('unsigned_legacy_tx', st, True, o, err,
                      same_tx(f, want))
            else:
                judge('unsigned_legacy_tx', st, None, o, err,
                      lambda o: type(o) is not lib.cls(f)
                      and type(o).__name__)
            return
        if f == 'btc':
            wit = bool(gen.NETS[cur]['segwit']) and idx % 2
            want = dict(base, fam='btc', flag=bool(wit), version=n4.hex(),
                        wits=[[] for _ in ins] if wit else [])
            o, err = attempt(lambda: tb.make_tx(
                num, ins, outs, 1, tx_witnesses=[
                    tb.make_empty_witness() for _ in ins] if wit else None))
        elif f == 'spr':
            want = dict(z, fam='spr', version='01000000')
            o, err = attempt(lambda: tb.make_tx(
                b'\1\0\0\0', ins, outs, 1, tx_joinsplits=[]))
        elif f == 'ow':
            want = dict(z, fam='ow', expiry='02000000')
            o, err = attempt(lambda: tb.make_tx(None, ins, outs, 1, 2))
        else:
            want = dict(z, fam='sap', expiry='02000000', vbal='00' * 8,
                        ss=[], so=[], bsig=None)
            o, err = attempt(lambda: tb.make_tx(
                None, ins, outs, 1, 2, tx_shielded_spends=[],
                tx_shielded_outputs=[], tx_joinsplits=[]))
        judge('make_tx', st, True, o, err, same_tx(f, want))
