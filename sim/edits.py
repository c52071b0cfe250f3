'''Edits of transactions: as JSON, applied to the model's record of fields and,
through copy(), to the library's objects.'''
import copy as _copy

from sim import gen, lib, model

ZC = ('spr', 'ow', 'sap')
# model field of a whole transaction -> argument of copy()
TOP = {
    'btc': dict(version='version', flag='flag', ins='tx_ins', outs='tx_outs',
                wits='tx_witnesses', lock='lock_time'),
    'dcr': dict(version='version', ins='tx_ins', outs='tx_outs',
                lock='lock_time', expiry='expiry', wits='tx_witnesses'),
    'spr': dict(version='version', ins='tx_ins', outs='tx_outs',
                lock='lock_time', js='tx_joinsplits',
                jspub='joinsplit_pubkey', jssig='joinsplit_sig'),
    'ow': dict(ins='tx_ins', outs='tx_outs', lock='lock_time',
               expiry='expiry_height', js='tx_joinsplits',
               jspub='joinsplit_pubkey', jssig='joinsplit_sig'),
    'sap': dict(ins='tx_ins', outs='tx_outs', lock='lock_time',
                expiry='expiry_height', vbal='value_balance',
                ss='tx_shielded_spends', so='tx_shielded_outputs',
                js='tx_joinsplits', jspub='joinsplit_pubkey',
                jssig='joinsplit_sig', bsig='binding_sig'),
}
# order of copy()'s parameters
ORDER = {k: list(v.values()) for k, v in TOP.items()}
PART = {
    'outpoint': dict(txid='tx_id', index='index'),
    'doutpoint': dict(txid='tx_id', index='index', tree='tree'),
    'txin': dict(op='outpoint', stack='stack_script', redeem='redeem_script',
                 seq='sequence'),
    'dtxin': dict(op='outpoint', seq='sequence'),
    'txout': dict(value='value', script='output_script'),
    'dtxout': dict(value='value', ver='version', script='output_script'),
    'wit': dict(stack='stack'),
    'dwit': dict(value='value', height='height', index='index',
                 stack='stack_script', redeem='redeem_script'),
}


def out_kind(fam):
    return 'dtxout' if fam == 'dcr' else 'txout'


def new_in(rng, fam):
    i = gen.txin(rng)
    if fam == 'dcr':
        return dict(txid=i['txid'], index=i['index'],
                    tree=rng.choice(['00', '01']), seq=i['seq'])
    return i


def new_out(rng, fam):
    o = gen.txout(rng)
    if fam == 'dcr':
        o['ver'] = rng.choice(['0000', gen.rb(rng, 2).hex()])
    return o


def sig(rng):
    s, r = gen.script_sig(rng)
    return dict(stack=s, redeem=r)


def in_fields(rng, fam, i):
    'new values for some fields of input i'
    new = new_in(rng, fam)
    ks = [k for k in new if k not in ('stack', 'redeem')]
    d = {k: new[k] for k in rng.sample(ks, rng.randint(1, len(ks)))}
    if rng.chance(.6):
        d = {'seq': rng.choice(['00000000', 'ffffffff', new['seq'],
                                gen.rb(rng, 4).hex()])}
    elif rng.chance(.2):
        d = dict(d, index='00000000')
    return d


def edit(rng, m, kinds=None):
    'a random edit that is valid for m'
    f = m['fam']
    ni, no = len(m['ins']), len(m['outs'])
    ch = [(2, 'top')]
    if ni:
        ch += [(3, 'sig'), (3, 'in')]
        if ni > 1:
            ch.append((1, 'delin'))
    if no:
        ch.append((3, 'out'))
        if no > 1 or f in ZC:
            ch.append((1, 'delout'))
    if ni < 8:
        ch.append((1.5, 'addin'))
    if no < 8:
        ch.append((1.5, 'addout'))
    if f == 'btc' and m['flag']:
        ch.append((2, 'wits'))
        if m['wits']:
            ch.append((2, 'wit'))
    if f == 'dcr' and m['wits']:
        ch.append((2, 'dwit'))
    if m.get('js'):
        ch.append((1.5, 'js'))
    if m.get('ss') or m.get('so'):
        ch.append((1.5, 'shield'))
    if f in ZC or f == 'dcr':
        ch.append((1.2, 'clear'))
    if f in ('ow', 'sap') and not m['js']:
        ch.append((.7, 'newjs'))
    if f == 'sap' and not m['ss'] and not m['so']:
        ch.append((.7, 'newss'))
    if kinds:
        ch = [(w, k) for w, k in ch if k in kinds] or ch
    k = rng.pick(ch)
    e = dict(op=k)
    if k == 'clear':
        s = clear(rng, m)
        if s is None:
            k = 'top'
        e.update(op='top', set=s)
    elif k == 'newjs':
        lay = model.JS_G if f == 'sap' else model.JS_S
        e.update(op='top', set=dict(
            js=[gen.js(rng, lay) for _ in range(rng.randint(1, 2))],
            jspub=gen.rb(rng, 32).hex(), jssig=gen.rb(rng, 64).hex()))
    elif k == 'newss':
        v = rng.choice(['ss', 'so'])
        e.update(op='top', set={
            v: [gen.fixed(rng, model.SS if v == 'ss' else model.SO)
                for _ in range(rng.randint(1, 2))],
            'bsig': gen.rb(rng, 64).hex(), 'vbal': '05' + '00' * 7})
    if k == 'sig':
        if f == 'dcr':
            if not m['wits']:
                return dict(op='top', set=dict(lock=gen.lock(rng)))
            e.update(i=rng.randrange(len(m['wits'])), set=sig(rng),
                     op='dwit')
        else:
            e.update(i=rng.randrange(ni), set=sig(rng))
            if rng.chance(.15):
                e['set'] = dict(stack='', redeem='')
    elif k == 'in':
        i = rng.randrange(ni)
        e.update(i=i, set=in_fields(rng, f, m['ins'][i]))
    elif k == 'out':
        new = new_out(rng, f)
        ks = rng.sample(sorted(new), rng.randint(1, len(new)))
        e.update(i=rng.randrange(no), set={x: new[x] for x in ks})
        if 'value' in ks and rng.chance(.3):
            e['set']['value'] = '00' * 8
    elif k in ('delin', 'delout'):
        e['i'] = rng.randrange(ni if k == 'delin' else no)
    elif k == 'addin':
        e.update(i=rng.randint(0, ni), v=new_in(rng, f))
        if f == 'btc' and m['wits'] and m['flag']:
            e['w'] = gen.wit(rng)
        if f == 'dcr':
            e['w'] = gen.part(rng, 'dwit')
    elif k == 'addout':
        e.update(i=rng.randint(0, no), v=new_out(rng, f))
    elif k == 'wits':
        e['op'], e['set'] = 'top', dict(
            wits=[] if rng.chance(.2) else [gen.wit(rng) for _ in m['ins']])
    elif k == 'wit':
        e.update(i=rng.randrange(len(m['wits'])), v=gen.wit(rng))
    elif k == 'dwit':
        new = gen.part(rng, 'dwit')
        ks = rng.sample(['value', 'height', 'index'], rng.randint(1, 3))
        e.update(i=rng.randrange(len(m['wits'])), set={x: new[x] for x in ks})
        if rng.chance(.3):
            e['set'].update(sig(rng))
    elif k == 'js':
        lay = model.JS_G if f == 'sap' else model.JS_S
        s = {}
        if rng.chance(.5):
            s['js'] = [gen.js(rng, lay) for _ in range(rng.randint(1, 2))]
        if rng.chance(.5):
            s['jspub'] = gen.rb(rng, 32).hex()
        if rng.chance(.5) or not s:
            s['jssig'] = gen.rb(rng, 64).hex()
        e.update(op='top', set=s)
    elif k == 'shield':
        s = {}
        if m['ss'] and rng.chance(.4):
            s['ss'] = [gen.fixed(rng, model.SS)
                       for _ in range(rng.randint(1, 2))]
        if m['so'] and rng.chance(.4):
            s['so'] = [gen.fixed(rng, model.SO)
                       for _ in range(rng.randint(1, 2))]
        if rng.chance(.3):
            s['bsig'] = gen.rb(rng, 64).hex()
        if rng.chance(.4) or not s:
            s['vbal'] = rng.choice([0, -1, 5, rng.randint(
                -10 ** 12, 10 ** 12)]).to_bytes(8, 'little',
                                                signed=True).hex()
        e.update(op='top', set=s)
    elif k == 'top':
        new = dict(lock=gen.lock(rng))
        if f in ('btc', 'dcr'):
            new['version'] = rng.choice(['01000000', '02000000',
                                         gen.rb(rng, 4).hex()])
        if f == 'dcr':
            new['expiry'] = gen.u32(rng)
        if f in ('ow', 'sap'):
            new['expiry'] = gen.expiry(rng)
        ks = rng.sample(sorted(new), rng.randint(1, len(new)))
        e['set'] = {x: new[x] for x in ks}
    e['pos'] = rng.chance(.25)
    e['mut'] = rng.chance(.2)
    e['seq'] = rng.choice('llt')
    return e


def clear(rng, m):
    'empty some vectors of m, if it may'
    vs = [v for v in ('js', 'ss', 'so', 'ins', 'outs', 'wits') if m.get(v)]
    if m['fam'] == 'dcr':
        vs = [v for v in vs if v == 'wits']
    if not vs:
        return None
    s = {v: [] for v in rng.sample(vs, 1 if rng.chance(.6)
                                   else rng.randint(1, len(vs)))}
    left = [v for v in ('js', 'ss', 'ins') if m.get(v) and v not in s]
    if m['fam'] != 'dcr' and not left:
        s.pop('ins', None)
        left = [v for v in ('js', 'ss', 'ins') if m.get(v) and v not in s]
    if m['fam'] != 'dcr' and not left or not s:
        return None
    if m['fam'] == 'spr' and m['version'] == '01000000' and 'ins' in s:
        return None
    if m['fam'] == 'sap' and not [v for v in ('ss', 'so')
                                  if m[v] and v not in s]:
        s['vbal'] = '00' * 8
    return s


def paths(e):
    'the fields an edit sets (structural edits: None)'
    k = e['op']
    if k in ('addin', 'addout', 'delin', 'delout'):
        return None
    if k == 'top':
        p = {(x,) for x in e['set']}
        for x in e['set']:      # what depends on a vector being there
            if x == 'js':
                p |= {('jspub',), ('jssig',), ('input',)}
            if x in ('ss', 'so'):
                p |= {('vbal',), ('bsig',), ('input',)}
            if x == 'ins':
                p |= {('input',), ('wits',)}
        return p
    if k == 'wit':
        return {('wits', e['i'])}
    v = dict(sig='ins', out='outs', dwit='wits').get(k, 'ins')
    return {(v, e['i'], x) for x in e['set']}


def clash(a, b):
    'do two path sets conflict (same field, or whole vector against part)'
    return any(x[:len(y)] == y or y[:len(x)] == x for x in a for y in b)


def apply(m, e):
    'the record of fields after the edit'
    m = _copy.deepcopy(m)
    k = e['op']
    if k == 'top':
        m.update(_copy.deepcopy(e['set']))
        if m['fam'] in ('ow', 'sap') and not m['js']:
            m['jspub'] = m['jssig'] = None
        if m['fam'] == 'sap' and not m['ss'] and not m['so']:
            m['bsig'] = None
    elif k in ('sig', 'in'):
        m['ins'][e['i']].update(e['set'])
    elif k == 'out':
        m['outs'][e['i']].update(e['set'])
    elif k == 'dwit':
        m['wits'][e['i']].update(e['set'])
    elif k == 'wit':
        m['wits'][e['i']] = list(e['v'])
    elif k == 'addin':
        m['ins'].insert(e['i'], dict(e['v']))
        if 'w' in e and m['wits']:
            m['wits'].insert(e['i'], _copy.deepcopy(e['w']))
    elif k == 'addout':
        m['outs'].insert(e['i'], dict(e['v']))
    elif k == 'delin':
        del m['ins'][e['i']]
        if m.get('wits') and len(m['wits']) > e['i']:
            del m['wits'][e['i']]
    elif k == 'delout':
        del m['outs'][e['i']]
    return m


class Wrong(Exception):
    'a copy is not the original with the named fields replaced'


def _val(v):
    if isinstance(v, (list, tuple)):
        return [_val(x) for x in v]
    if v is None:
        return ''
    return lib.hx(v) or ''


def _norm(v):
    return v if v != [] else ''


def cp(o, kind, kw, e, wrong):
    '''o.copy(**kw), or the same call with positional arguments; checks the
    attributes of the result'''
    order = ORDER.get(kind) or list(PART[kind].values())
    old = {a: _val(lib.attr(o, a)) for a in order}
    raw = o.to_bytes()
    if e.get('pos'):
        args = [kw.get(a) for a in order]
        while args and args[-1] is None:
            args.pop()
        n = o.copy(*args)
    else:
        n = o.copy(**kw)
    for a in order:
        want = _val(kw[a]) if a in kw else old[a]
        if a in ('joinsplit_pubkey', 'joinsplit_sig') and kind != 'spr' \
                and not n.tx_joinsplits:
            want = ''
        if a == 'binding_sig' and not (n.tx_shielded_spends
                                       or n.tx_shielded_outputs):
            want = ''
        got = _val(lib.attr(n, a))
        if _norm(got) != _norm(want):
            wrong.append(['copy', kind, a, sorted(kw), got, want])
        if _norm(_val(lib.attr(o, a))) != _norm(old[a]):
            wrong.append(['original changed', kind, a, sorted(kw)])
    if o.to_bytes() != raw:
        wrong.append(['original changed', kind, 'bytes', sorted(kw)])
    if type(n) is not type(o):
        wrong.append(['class', kind, type(n).__name__])
    if (n == o) != (n.to_bytes() == raw) or (not kw and n != o):
        wrong.append(['equality', kind, sorted(kw)])
    return n


def apply_lib(o, fam, e, wrong):
    'the same edit with the library; appends to wrong'
    k = e['op']
    b = lib.Build((lambda: True) if e.get('mut') else None)

    def raw(h):
        return lib.ev(b.b(h))

    def seq(v):
        return tuple(v) if e.get('seq') == 't' else list(v)

    def built(kind, v):
        return lib.ev(getattr(b, kind)(v))

    def part(p, kind, s):
        names = PART[kind]
        return cp(p, kind, {names[x]: raw(h) for x, h in s.items()}, e,
                  wrong)
    ik = 'dtxin' if fam == 'dcr' else 'txin'
    ok = out_kind(fam)
    kw = {}
    if k == 'top':
        for x, v in e['set'].items():
            if v == []:
                v = seq([])
            elif x == 'wits':
                v = seq(built('wit' if fam == 'btc' else 'dwit', w)
                        for w in v)
            elif x in ('js', 'ss', 'so'):
                kind = x if x != 'js' else ('gjs' if fam == 'sap' else 'sjs')
                v = seq(built(kind, y) for y in v)
            else:
                v = raw(v)
            kw[TOP[fam][x]] = v
    elif k in ('sig', 'in'):
        ins = list(o.tx_ins)
        i = ins[e['i']]
        s = dict(e['set'])
        op = {x: s.pop(x) for x in ('txid', 'index', 'tree') if x in s}
        ch = {PART[ik][x]: raw(h) for x, h in s.items()}
        if op:
            ch['outpoint'] = part(i.outpoint, 'd' * (fam == 'dcr')
                                  + 'outpoint', op)
        ins[e['i']] = cp(i, ik, ch, e, wrong)
        kw['tx_ins'] = seq(ins)
    elif k == 'out':
        outs = list(o.tx_outs)
        outs[e['i']] = part(outs[e['i']], ok, e['set'])
        kw['tx_outs'] = seq(outs)
    elif k == 'dwit':
        ws = list(o.tx_witnesses)
        ws[e['i']] = part(ws[e['i']], 'dwit', e['set'])
        kw['tx_witnesses'] = seq(ws)
    elif k == 'wit':
        ws = list(o.tx_witnesses)
        ws[e['i']] = cp(ws[e['i']], 'wit', {
            'stack': seq(built('item', x) for x in e['v'])}, e, wrong)
        kw['tx_witnesses'] = seq(ws)
    elif k in ('addin', 'delin'):
        ins = list(o.tx_ins)
        ws = list(lib.attr(o, 'tx_witnesses') or ())
        if k == 'addin':
            ins.insert(e['i'], built(ik, e['v']))
            if 'w' in e and ws:
                ws.insert(e['i'], built('dwit' if fam == 'dcr' else 'wit',
                                        e['w']))
                kw['tx_witnesses'] = seq(ws)
        else:
            del ins[e['i']]
            if len(ws) > e['i']:
                del ws[e['i']]
                kw['tx_witnesses'] = seq(ws)
        kw['tx_ins'] = seq(ins)
    elif k in ('addout', 'delout'):
        outs = list(o.tx_outs)
        if k == 'addout':
            outs.insert(e['i'], built(ok, e['v']))
        else:
            del outs[e['i']]
        kw['tx_outs'] = seq(outs)
    return cp(o, fam, kw, e, wrong)


def plain(o, fam, wrong):
    'copies of everything without changes'
    e = {}
    n = cp(o, fam, {}, e, wrong)
    ik = 'dtxin' if fam == 'dcr' else 'txin'
    for i in n.tx_ins:
        cp(i, ik, {}, e, wrong)
        cp(i.outpoint, 'd' * (fam == 'dcr') + 'outpoint', {}, e, wrong)
    for x in n.tx_outs:
        cp(x, out_kind(fam), {}, e, wrong)
    for w in lib.attr(n, 'tx_witnesses') or ():
        cp(w, 'dwit' if fam == 'dcr' else 'wit', {}, e, wrong)
    return n


def _variants(v):
    'other values of the same kind and length'
    if isinstance(v, (list, tuple)):
        out = []
        if len(v) > 1:
            out.append(type(v)(reversed(v)))
        return out
    b = bytes.fromhex(_val(v))
    return [bytes(len(b)), bytes(x ^ 0x5a for x in b)] if b else []


FIXED = {('btc', 'flag'), ('spr', 'version'), ('ow', 'expiry_height'),
         ('sap', 'expiry_height')}


def singles(o, kind, wrong, e):
    'copies with one changed field each'
    for a in ORDER.get(kind) or list(PART[kind].values()):
        v = lib.attr(o, a)
        if v is None or (kind, a) in FIXED or a == 'outpoint':
            continue
        if a == 'value_balance' and not (o.tx_shielded_spends
                                         or o.tx_shielded_outputs):
            continue
        vs = _variants(v)
        if a in ('stack_script', 'redeem_script', 'output_script'):
            vs += [b'', b'\x51'][:1 + bool(len(v))]
        for x in vs:
            if e.get('mut') and isinstance(x, bytes):
                x = bytearray(x)
            cp(o, kind, {a: x}, e, wrong)
    refusable(o, kind, wrong, e)


def refusable(o, kind, wrong, e):
    '''copies with a value that may be refused: then nothing is changed,
    otherwise it is what the copy has; never the old value instead'''
    for a in ORDER.get(kind) or list(PART[kind].values()):
        v = lib.attr(o, a)
        if v is None or a == 'outpoint':
            continue
        if isinstance(v, (list, tuple)):
            xs = [type(v)()]
        else:
            v = bytes.fromhex(_val(v))
            xs = [b'', v + b'\0', v[:-1]]
        for x in xs:
            if not len(v) and not len(x) or len(v) > 4000:
                continue
            if e.get('mut') and isinstance(x, bytes):
                x = bytearray(x)
            raw, before = o.to_bytes(), len(wrong)
            try:
                cp(o, kind, {a: x}, e, wrong)
            except Exception:
                del wrong[before:]
                if o.to_bytes() != raw:
                    wrong.append(['refused copy changed the original', kind,
                                  a])


def all_singles(o, fam, wrong, e):
    ik = 'dtxin' if fam == 'dcr' else 'txin'
    singles(o, fam, wrong, e)
    for i in o.tx_ins[:3]:
        singles(i, ik, wrong, e)
        singles(i.outpoint, 'd' * (fam == 'dcr') + 'outpoint', wrong, e)
    for x in o.tx_outs[:3]:
        singles(x, out_kind(fam), wrong, e)
    for w in (lib.attr(o, 'tx_witnesses') or ())[:3]:
        singles(w, 'dwit' if fam == 'dcr' else 'wit', wrong, e)


def build_from(m):
    'object from a record of fields'
    return lib.ev(lib.Build().tx(m))
