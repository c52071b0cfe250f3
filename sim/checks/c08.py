'''C08: a damaged or misrouted address never pays someone else.

Recipients on several networks have the library make their addresses and send
them to payers over a channel that damages text (substituted, dropped,
duplicated, swapped, inserted, case-changed characters, truncation, splicing
with earlier messages, white space, look-alike letters), delivers it to payers
of other networks, or brings addresses of unusual but well-formed kinds made
by other software. Payers resolve what arrives with the library, which serves
all networks by switching. Oracle: an independent decoder of the receiving
network's address rules.
'''
from sim import gen, lib, model
from sim.gen import rb
from sim.model import NETS

ID = 'C08'
RUNS = dict(quick=10000, thorough=400000)
COMPONENTS = dict(
    real=['riemann.encoding (base58, bech32, cashaddr, addresses), simple, '
          'tx_builder address and output functions'],
    stub=['the channel that carries addresses'])
NONTRIVIAL = 'at least 5 addresses were delivered'
STATES = 'digest of (sender, receiver, kind, damage kinds, outcome)'

ALNUM = ('0123456789abcdefghijklmnopqrstuvwxyz'
         'ABCDEFGHIJKLMNOPQRSTUVWXYZ:')
ODD = '\n\t \u0131\u212a\uff11\u03bf\u0000-_'

AROUND = [chr(i) for i in range(33, 127)] + list(
    ' \t\n\r\v\f\0\xa0\u200b\ufeff') * 4


def damage(rng, s, earlier):
    'a list of edits; each is [kind, ...]'
    out = []
    for _ in range(rng.pick([(5, 1), (2, 2), (1, 3), (1, 5)])):
        k = rng.choice(['subst', 'subst', 'drop', 'dup', 'swap', 'insert',
                        'case', 'caseall', 'trunc', 'splice', 'odd', 'space',
                        'alphabet', 'reverse', 'ones', 'qp', 'sepcut',
                        'headcut'])
        a, b = rng.random(), rng.random()
        if k in ('subst', 'insert'):
            out.append([k, a, rng.choice(ALNUM)])
        elif k == 'alphabet':
            out.append(['subst', a, rng.choice(model.B32)])
        elif k == 'odd':
            out.append([rng.choice(['subst', 'insert']), a, rng.choice(ODD)])
        elif k == 'space':
            out.append([k, a, rng.choice(AROUND) * rng.choice([1, 1, 2])])
        elif k == 'splice' and earlier:
            out.append([k, a, rng.choice(earlier)])
        elif k == 'ones':
            out.append(['insert', 0, '1' * rng.randint(1, 3)])
        else:
            out.append([k, a, b])
    return out


def edit(s, e, texts):
    k, a = e[0], e[1]
    n = len(s)
    i = min(n - 1, int(a * n)) if n else 0
    if k == 'insert':
        return s[:i] + e[2] + s[i:]
    if not n:
        return s
    if k == 'subst':
        return s[:i] + e[2] + s[i + 1:]
    if k == 'drop':
        return s[:i] + s[i + 1:]
    if k == 'dup':
        return s[:i] + s[i] + s[i:]
    if k == 'swap':
        return s[:i] + s[i + 1:i + 2] + s[i] + s[i + 2:]
    if k == 'case':
        return s[:i] + s[i].swapcase() + s[i + 1:]
    if k == 'caseall':
        return s.upper() if a < .5 else s.swapcase()
    if k == 'trunc':
        return s[:i]
    if k == 'headcut':
        return s[max(1, n - i):] if a < .2 else s[i:]
    if k == 'splice':
        t = texts.get(e[2], '')
        return s[:i] + t[i:]
    if k == 'space':
        # around it, or around its parts
        j = max(s.find(':'), s.find('1')) + 1
        return (e[2] + s if a < .35 else s + e[2] if a < .7
                else e[2] + s + e[2] if a < .8 else s[:j] + e[2] + s[j:])
    if k == 'reverse':
        j = min(n, i + 2 + int(e[2] * 6))
        return s[:i] + s[i:j][::-1] + s[j:]
    if k == 'qp':
        # the known weakness of the checksum: q's before a final p
        if s.endswith('p'):
            return s[:-1] + 'q' * (1 + int(a * 3)) + 'p'
        return s
    if k == 'sepcut':
        p = s.find(':')
        return s[p + 1:] if p >= 0 else s
    return s


CHARS = sorted(set(AROUND + list(ODD) + list(ALNUM)))


def variants(s, kind, a, c):
    'all texts one edit of a kind away'
    n = len(s)
    if kind == 'around':
        j = max(s.find(':'), s.find('1')) + 1
        return [y for x in CHARS for y in (
            x + s, s + x, s[:j] + x + s[j:], x + x + s, s + x + x)]
    if kind == 'at':
        i = int(a * n)
        return [y for x in CHARS for y in (s[:i] + x + s[i:],
                                           s[:i] + x + s[i + 1:])]
    every = range(n)
    if kind == 'char':
        return [y for i in every for y in (s[:i] + c + s[i:],
                                           s[:i] + c + s[i + 1:])]
    if kind == 'drop':
        return [s[:i] + s[i + 1:] for i in every]
    if kind == 'swap':
        return [s[:i] + s[i:i + 2][::-1] + s[i + 2:] for i in every]
    if kind == 'case':
        return [s[:i] + s[i].swapcase() + s[i + 1:] for i in every]
    if kind == 'twice':
        return [s[:i] + s[i] + s[i:] for i in every]
    return [s[:i] for i in every] + [s[i:] for i in every]


def twins(rng, net):
    'a network easily confused with this one'
    n = NETS[net]
    same = [x for x in NETS if x != net and (
        NETS[x]['p2pkh'] == n['p2pkh'] or NETS[x]['p2sh'] == n['p2sh']
        or (n['hrp'] and NETS[x]['hrp'] and (
            NETS[x]['hrp'].startswith(n['hrp'])
            or n['hrp'].startswith(NETS[x]['hrp'])))
        or (n['cash_prefix'] and NETS[x]['cash_prefix'])
        or NETS[x]['p2pkh'] == n['p2sh'])]
    return rng.choice(sorted(same)) if same else gen.any_net(rng)


def foreign(rng, net):
    'well-formed text other software may produce'
    n = NETS[net]
    ln = rng.choice([18, 19, 20, 20, 21, 22, 32, 33, 2, 40, 1, 0])
    h = rb(rng, ln)
    k = rng.randrange(6)
    if k == 0 and n['hrp']:
        ver = rng.choice([0, 1, 1, 2, 5, 15, 16, 17, 31])
        return model.bech32_enc(n['hrp'], ver, h)
    if k == 1 and n['hrp']:
        # non-zero or superfluous padding
        d = [0] + model._regroup(h, 8, 5, True)
        if rng.chance(.5):
            d.append(0)
        else:
            d[-1] |= 1
        p = model._b32poly(model._hrpx(n['hrp']) + d + [0] * 6) ^ 1
        d += [(p >> 5 * (5 - i)) & 31 for i in range(6)]
        return n['hrp'] + '1' + ''.join(model.B32[x] for x in d)
    if k in (2, 3) and n['cash_prefix']:
        return model.cash_enc(n['cash_prefix'], bytes([rng.choice(
            [0, 8, 0, 8, 1, 9, 3, 11, 16, 128])]) + h)
    pre = bytes.fromhex(rng.choice(
        [n['p2pkh'], n['p2sh'], n['p2wpkh'] or '0014', n['p2wsh'] or '0020',
         rb(rng, 1).hex(), '']))
    return model.b58check_enc(pre + h, net)


def gen_(rng, tier):
    nets = [gen.any_net(rng) for _ in range(rng.randint(1, 3))]
    if rng.chance(.4):
        nets.append(twins(rng, nets[0]))
    if rng.chance(.2):
        nets += [rng.choice(gen.CASH_NETS), rng.choice(gen.SEGWIT_NETS)]
    msgs = []
    scripts = [gen.good_script(rng) for _ in range(3)]
    rate = rng.choice([.3, .6, .9])
    for i in range(rng.randint(8, 40)):
        net = rng.choice(nets)
        ks = model.kinds(net)
        how = rng.randrange(5)
        m = dict(net=net, to=net, dt=rng.randint(1, 100))
        if how == 0:
            m['make'] = ['foreign', foreign(rng, net)]
        elif how in (1, 2):
            m['make'] = ['hash', rng.choice(ks), None]
            m['make'][2] = rb(rng, 32 if m['make'][1] == 'p2wsh'
                              else 20).hex()
            if rng.chance(.1):      # hashes that look like something else
                h = bytes.fromhex(m['make'][2])
                m['make'][2] = (b'\0' * rng.randint(1, 4) + h)[:len(h)].hex()
        elif how == 3:
            m['make'] = ['pub', rng.choice(
                [k for k in ks if k in ('p2pkh', 'cash_pkh', 'p2wpkh')]),
                ('02' + rb(rng, 32).hex()) if rng.chance(.7)
                else '04' + rb(rng, 64).hex()]
        else:
            m['make'] = ['script', rng.choice(
                [k for k in ks if k in ('p2sh', 'cash_sh', 'p2wsh')]),
                rng.choice(scripts)]
        if rng.chance(rate):
            m['edits'] = damage(rng, None, list(range(i)))
        if rng.chance(.3):
            m['to'] = rng.choice(nets) if rng.chance(.5) else twins(rng, net)
        if rng.chance(.15):
            m['again'] = True
        if rng.chance(.03):
            m['sweep'] = [rng.choice(['around', 'at', 'char', 'drop', 'swap',
                                      'case', 'twice', 'cut']),
                          rng.random(), rng.choice(AROUND)]
        msgs.append(m)
    return dict(msgs=msgs)


def ask(fn, *a):
    try:
        return fn(*a), None
    except Exception as e:
        return None, e


def make(m, res, i):
    'address text and what it was made for: (kind, hash)'
    A = lib.MODULES['addr']
    what = m['make']
    if what[0] == 'foreign':
        return what[1], None
    net, kind = m['net'], what[1]
    lib.select(net)
    cash = kind.startswith('cash')
    if what[0] == 'hash':
        h = bytes.fromhex(what[2])
        s, e = ask(A.from_output_script, model.script_for(kind, h), cash)
    elif what[0] == 'pub':
        pk = bytes.fromhex(what[2])
        h = model.hash160(pk, net)
        fn = {'p2pkh': A.make_legacy_p2pkh_address,
              'cash_pkh': A.make_p2pkh_address,
              'p2wpkh': A.make_p2wpkh_address}[kind]
        if kind == 'p2wpkh' and NETS[net]['cash_prefix']:
            fn = (lambda p: A.make_pkh_address(p, witness=True,
                                               cashaddr=False))
        s, e = ask(fn, pk)
    else:
        ser = bytes(lib.riemann.script.serialization.serialize(what[2]))
        h = model.sha256(ser) if kind == 'p2wsh' \
            else model.hash160(ser, net)
        fn = {'p2sh': A.make_legacy_p2sh_address,
              'cash_sh': A.make_p2sh_address,
              'p2wsh': A.make_p2wsh_address}[kind]
        if kind == 'p2wsh' and NETS[net]['cash_prefix']:
            fn = (lambda p: A.make_sh_address(p, witness=True,
                                              cashaddr=False))
        s, e = ask(fn, what[2])
    res.real_calls += 1
    want = model.make_address(net, kind, h)
    if s != want:
        res.fail('address not made for its hash', step=i, net=net, kind=kind,
                 how=what[0], hash=h.hex(), got=s if e is None
                 else lib.exc(e, True), want=want)
        return None, None
    return s, (kind, h)


def execute(sc, res):
    A, S = lib.MODULES['addr'], lib.MODULES['simple']
    texts = {}
    n = 0
    for i, m in enumerate(sc['msgs']):
        s, intent = make(m, res, i)
        if s is None:
            return
        texts[i] = s
        orig = s
        for e in m.get('edits', ()):
            t = edit(s, e, texts)
            if t != s:
                res.fault('text_' + e[0])
            s = t
        to = m['to']
        if to != m['net']:
            res.fault('misrouted')
        if intent is None:
            res.fault('foreign_form')
        res.simtime += m['dt']
        for _ in range(2 if m.get('again') else 1):
            lib.select(to)
            judge(i, m, s, orig, intent, to, A, S, res)
            n += 1
            if res.violations:
                return
        if 'sweep' in m:
            lib.select(to)
            k = 0
            for t in sorted(set(variants(s, *m['sweep']))):
                v, e = ask(A.to_output_script, t)
                k += 1
                if v is not None and t != s and bytes(v) not in {
                        model.script_for(*d)
                        for d in model.destination(to, t)}:
                    res.fail('pays someone else', step=i, address=t, net=to,
                             call='to_output_script', original=orig,
                             got=bytes(v).hex())
                    return
            res.fault('text_sweep_' + m['sweep'][0], k)
            res.real_calls += k
    res.nontrivial = n >= 5


def judge(i, m, s, orig, intent, to, A, S, res):
    dest = model.destination(to, s)
    scripts = {model.script_for(*d) for d in dest}
    hashes = {d[1] for d in dest}
    intact = s == orig and to == m['net'] and intent is not None
    if intact:
        # what it was made for, exactly
        scripts = {model.script_for(*intent)}
        hashes = {intent[1]}
    out = {}
    for name, fn, want in (
            ('to_output_script', lambda: A.to_output_script(s), scripts),
            ('parse_hash', lambda: A.parse_hash(s), hashes),
            ('simple.output', lambda: S.output(12345, s), scripts)):
        v, e = ask(fn)
        res.real_calls += 1
        if name == 'simple.output' and v is not None:
            if bytes(v.value) != (12345).to_bytes(8, 'little'):
                res.fail('wrong amount', step=i, address=s, net=to)
            v = bytes(v.output_script)
        out[name] = 'refused' if v is None else 'resolved'
        if v is None:
            if intact:
                res.fail('intact address refused', step=i, call=name,
                         address=s, net=to, made_on=m['net'],
                         error=lib.exc(e, True))
        elif bytes(v) not in want:
            res.fail('pays someone else', step=i, call=name, address=s,
                     net=to, made_on=m['net'], original=orig,
                     got=bytes(v).hex(), meant=[x.hex() for x in want])
    if dest and not intact:
        res.probe('damaged_or_misrouted_but_valid')
    res.state(m['net'], to, m['make'][0], m['make'][1] if intent else '',
              [e[0] for e in m.get('edits', ())], out)
    res.ev(i, m['net'], to, s, [out[k] for k in sorted(out)])
