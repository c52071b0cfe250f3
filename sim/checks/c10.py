'''C10: co-signers compute the same, correct signing digests.

Three signer processes work on one transaction: each may sign (compute
digests, put script sigs or witnesses in), change or add inputs and outputs,
and sends the new version to the others over a network that loses, duplicates,
reorders and delays; signers crash between commands and at chosen steps inside
decoding, editing and digest computation and restart from stored bytes
(Decred, which has no decoder: stored fields). The highest version wins. Every
digest any signer computes is judged twice: against an independent model of
the signature-hash rules, and against the history: two digests of the session
are equal exactly if what their types commit to is equal.
'''
from sim import edits, gen, lib, model, wire
from sim.node import Crashed, Node

ID = 'C10'
RUNS = dict(quick=3000, thorough=300000)
COMPONENTS = dict(
    real=['transaction classes, decoders, copy() and signature hashing of '
          'riemann, in real processes'],
    stub=['network between signers', 'storage of signers'])
NONTRIVIAL = 'at least 2 signers computed digests of at least 2 versions'
STATES = 'digest of (family, type, anyone can pay, index, vector lengths, ' \
    'last edit)'
KNOWN_OW = 'Overwinter sighash_single ignores anyone_can_pay'


def probe(rng, m):
    p = wire.probes(rng, m, 1)[0]
    p[1] = rng.choice([1, 3])
    p[2] = rng.chance(.5)
    if rng.chance(.06):
        p[0] = len(m['ins']) + rng.randint(0, 2)
    elif rng.chance(.06):
        p[4] = ''       # value of the output being spent not given
    elif rng.chance(.06):
        # cut or extended on the way
        p[4] = rng.choice([p[4][:14], p[4] + '00', p[4][:8], p[4][2:]])
    return p


def gen_(rng, tier):
    f = rng.choice(['btc', 'btc', 'btc', 'dcr', 'spr', 'ow', 'sap'])
    net = gen.net_for(rng, f)
    kw = {}
    if rng.chance(.7):
        kw = dict(ins=rng.randint(1, 4), outs=rng.randint(1, 4))
    many = rng.chance(.015 if f != 'btc' else .03)
    if many:
        n = rng.choice([252, 253, 254, 255, 256, 257, 258])
        kw = dict(ins=n, outs=n + rng.choice([-1, 0, 0, 1, 3]))
    m = gen.tx(rng, net, big=rng.chance(.08), **kw)
    if many:
        for i in m['ins']:
            if 'stack' in i:
                i['stack'] = i['redeem'] = ''
        m['outs'] = [dict(o, script=o['script'][:50]) for o in m['outs']]
    codes = [gen.script_code(rng) for _ in range(2)]
    values = [gen.value(rng) for _ in range(2)]

    def some_probes(m, n):
        out = []
        for _ in range(n):
            p = probe(rng, m)
            if many and rng.chance(.7):
                p[0] = max(0, len(m['ins']) - rng.randint(1, 8))
            if rng.chance(.8):
                p[3] = rng.choice(codes)
            if len(p[4]) == 16 and rng.chance(.8):
                p[4] = rng.choice(values)
            out.append(p)
        return out
    steps = []
    cur = m
    for _ in range(rng.randint(5, 20)):
        k = rng.pick([(4, 'edit'), (5, 'sign'), (1, 'boot'), (.6, 'net')])
        st = dict(do=k, node=rng.randrange(3), dt=rng.randint(1, 120))
        if k == 'edit':
            st['e'] = edits.edit(rng, cur, rng.choice(
                [None, ('sig', 'wit', 'dwit'), ('in', 'out'),
                 ('addin', 'addout', 'delin', 'delout')]))
            cur = edits.apply(cur, st['e'])
            # when the other two get it: lists of delays, empty when lost
            st['fate'] = [[rng.choice([1, 5, 30, 200, 900])
                           for _ in range(rng.pick([(1, 0), (6, 1), (1, 2)]))]
                          for _ in range(2)]
        if k == 'sign':
            st['pr'] = some_probes(cur, rng.randint(1, 4))
        if k == 'net':
            st['net'] = gen.any_net(rng)
        if k in ('edit', 'sign') and rng.chance(.12):
            st['crash'] = rng.random()
            st['mode'] = rng.choice(['line', 'opcode'])
        steps.append(st)
    return dict(net=net, m=m, steps=steps, last=some_probes(cur, 3))


def handler(state, cmd):
    op = cmd['op']
    if op == 'net':
        lib.select(cmd['net'])
        return None
    lib.select(cmd['net'])
    fam = cmd['fam']
    try:
        if op == 'sign':
            o = state['o']
            raw = o.to_bytes()
            out = [wire.digest(o, fam, p) for p in cmd['pr']]
            if o.to_bytes() != raw or [wire.digest(o, fam, p)
                                       for p in cmd['pr']] != out:
                return ['unstable', out]
            none = lib.attr(o, 'sighash_none')
            if none is not None:
                try:
                    out.append(lib.canon(none()))
                except NotImplementedError:
                    pass
            if fam == 'btc' and o.flag and not cmd['forkid']:
                for p in cmd['pr']:
                    i, t, acp, code, val, _ = p
                    try:
                        g = lib.hx(o.segwit_sighash(
                            i, t, bytes.fromhex(val) or None, bytes.fromhex(code),
                            anyone_can_pay=acp))
                    except Exception as e:
                        g = lib.exc(e)
                    out.append(g)
            if fam in ('ow', 'sap'):
                for i, t, acp, code, val, js in cmd['pr']:
                    kw = dict(prevout_value=bytes.fromhex(val)) if val else {}
                    try:
                        g = lib.hx(o.sighash(
                            sighash_type=t, anyone_can_pay=acp, index=i,
                            script_code=bytes.fromhex(code),
                            joinsplit=js and bool(val), **kw))
                    except Exception as e:
                        g = lib.exc(e)
                    out.append(g)
            return ['v', out]
        if op == 'edit':
            wrong = []
            o = edits.apply_lib(state['o'], fam, cmd['e'], wrong)
        elif 'm' in cmd:
            o = edits.build_from(cmd['m'])
        else:
            o = lib.cls(fam).from_bytes(bytes.fromhex(cmd['raw']))
        state['o'] = o
        return ['v', [o.to_bytes().hex(), lib.read(o, fam)]]
    except Exception as e:
        return lib.exc(e, True)


def view(m, net, p):
    'what the digest must depend on, and nothing else'
    i, typ, acp, code, value, js = p
    f = m['fam']
    ins, outs = m['ins'], m['outs']

    def op(x):
        return [x['txid'], x['index'], x.get('tree')]
    own = ins[i] if i < len(ins) and not js else None
    flags = [typ, acp]
    if f == 'btc':
        fork = gen.NETS[net]['forkid']
        new = fork is not None or m['flag']
        head = ['btc', bool(new), fork, m['version'], m['lock']]
    elif f == 'dcr':
        new, head = False, ['dcr', m['version'], m['lock'], m['expiry']]
    elif f == 'spr':
        new, head = False, ['spr', m['version'], m['lock'], m['js'],
                            m['jspub']]
    else:
        new = True
        head = [f, m['lock'], m['expiry'], m['js'],
                m['jspub'] if m['js'] else None]
        if f == 'sap':
            head += [m['vbal'], [{k: v for k, v in s.items() if k != 'sig'}
                                 for s in m['ss']], m['so']]
    if new:
        v = [head, flags, None if acp else [op(x) for x in ins],
             [x['seq'] for x in ins] if typ == 1 and not acp else None,
             outs if typ == 1 else outs[i]]
        if own is not None:
            v += [op(own), own['seq'], code, value]
        return v
    if f == 'spr' and not ins:
        return [head, flags, outs]
    c = code if f == 'dcr' else code[2 * prefix(code):]
    seqs = [x['seq'] if typ == 1 or k == i else None
            for k, x in enumerate(ins)]
    if acp:
        v = [head, flags, op(own), own['seq'], c]
    else:
        v = [head, flags, [op(x) for x in ins], seqs,
             i if c else None, c]
        if f == 'dcr':
            v.append(len(m['wits']))
    if typ == 1:
        v.append(outs)
    else:
        v += [i, outs[i]]
        if f == 'dcr':
            v.append([o['ver'] for o in outs[:i]])
    return v


def prefix(code):
    return {'fd': 3, 'fe': 5, 'ff': 9}.get(code[:2], 1)


def execute(sc, res):
    net, fam = sc['net'], sc['m']['fam']
    assert model.sane(sc['m'])
    nodes = [Node(handler) for _ in range(3)]
    truth = {(0, 0): sc['m']}           # version id -> record of fields
    disk = [(0, 0)] * 3
    has = [None] * 3                    # version in memory
    mail = []                           # (time, seq, node, version)
    now, seq = 0, 0
    by_view, by_digest = {}, {}
    signed = set()
    last_edit = 'none'

    def call(n, cmd, st=None):
        cmd = dict(cmd, net=net, fam=fam)
        k = None
        if st and 'crash' in st:
            k = int(3 ** (st['crash'] * 8)) - 1
        res.real_calls += 1
        try:
            return nodes[n].call(cmd, k, (st or {}).get('mode', 'line'))
        except Crashed:
            res.fault('crash_inside_' + cmd['op'])
            nodes[n].start()
            has[n] = None
            return None

    def is_m(v, m, what, n):
        if v[0] != 'v':
            res.fail('refused', what=what, net=net, node=n, error=v)
        elif v[1] != [model.ser(m).hex(), lib.want(m)]:
            res.fail('not the transaction', what=what, net=net, node=n,
                     got=v[1][0], want=model.ser(m).hex())
        return not bad()

    def load(n, vid):
        'node n takes version vid into memory'
        m = truth[vid]
        v = call(n, dict(op='load', m=m) if fam == 'dcr'
                 else dict(op='load', raw=model.ser(m).hex()))
        if is_m(v, m, 'load', n):
            has[n] = vid
        return not bad()

    def up(n):
        return has[n] is not None or load(n, disk[n])

    def history(p, m, got, n):
        'equal digests exactly for equal commitments'
        vw = model.hashlib.sha256(
            repr(view(m, net, p)).encode()).hexdigest()
        if by_view.setdefault(vw, got) != got:
            res.fail('digest changes with what its type leaves open', p=p,
                     net=net, node=n, got=got, before=by_view[vw])
        elif by_digest.setdefault(got, vw) != vw:
            res.fail('digest does not change with what its type commits to',
                     p=p, net=net, node=n, got=got)

    def sign(n, pr, st=None):
        if not up(n):
            return
        m = truth[has[n]]
        fork = fam == 'btc' and gen.NETS[net]['forkid'] is not None
        v = call(n, dict(op='sign', pr=pr, forkid=fork), st)
        if v is None:
            return
        if v[0] != 'v':
            res.fail('digests change when computed again' if
                     v[0] == 'unstable' else 'sign fails', net=net, p=pr,
                     got=v)
            return
        got = v[1]
        twice = fam in ('ow', 'sap') or (fam == 'btc' and m['flag']
                                         and not fork)
        n2 = len(pr) * (1 + twice)
        if len(got) != n2:
            res.fail('SIGHASH_NONE not refused', net=net, fam=fam)
            return
        for k, g in enumerate(got):
            p = pr[k % len(pr)]
            w = wire.digest_want(m, net, p)
            res.state(fam, p[1], p[2], p[0], len(m['ins']), len(m['outs']),
                      last_edit)
            if wire.digest_ok(g, w):
                if w is None:
                    res.probe('undefined_refused')
                elif wire.ow_single_acp(m, net, p, g):
                    pass        # same with and without
                else:
                    history(p, m, g, n)
            elif k < len(pr) and wire.ow_single_acp(m, net, p, g):
                res.fail(KNOWN_OW, net=net, p=p, node=n, got=g, want=w)
            else:
                res.fail('wrong digest', net=net, fam=fam, p=p, node=n,
                         got=g, want=w, raw=model.ser(m).hex()[:2000])
        signed.add((n, has[n]))
        res.ev('sign', n, list(has[n]), [str(g)[:16] for g in got])

    def bad():
        return any(v['cls'] != KNOWN_OW for v in res.violations)

    def deliver(upto):
        mail.sort()
        while mail and mail[0][0] <= upto and not bad():
            _, _, n, vid = mail.pop(0)
            if vid > disk[n]:
                if load(n, vid):
                    disk[n] = vid
                    res.ev('adopt', n, list(vid))
            else:
                res.fault('stale_or_duplicate_message')

    for st in sc['steps']:
        n, do = st['node'], st['do']
        now += st['dt']
        deliver(now)
        if bad():
            break
        if do == 'boot':
            nodes[n].kill()
            nodes[n].start()
            has[n] = None
            res.fault('crash_between_commands')
        elif do == 'net':
            call(n, dict(op='net'))
            nodes[n].call(dict(op='net', net=st['net']))
            res.fault('other_network_in_between')
        elif do == 'sign':
            sign(n, st['pr'], st)
        elif do == 'edit' and up(n):
            m = truth[has[n]]
            e = st['e']
            try:        # made for the newest version; may not fit this one
                m2 = edits.apply(m, e)
                ok = model.sane(m2)
            except (IndexError, KeyError, TypeError, AttributeError):
                ok = False
            if not ok:
                res.probe('edit_does_not_fit')
                continue
            v = call(n, dict(op='edit', e=e), st)
            if v is None:
                continue
            if not is_m(v, m2, e, n):
                break
            vid = (disk[n][0] + 1, n)
            truth[vid] = m2
            disk[n] = has[n] = vid
            last_edit = e['op']
            res.ev('edit', n, list(vid), e['op'], v[1][0][-40:])
            others = [k for k in range(3) if k != n]
            for k, fate in zip(others, st['fate']):
                if not fate:
                    res.fault('message_lost')
                if len(fate) > 1:
                    res.fault('message_duplicated')
                for d in fate:
                    seq += 1
                    mail.append((now + d, seq, k, vid))
        if bad():
            break
    # faults over: everyone gets the newest version and signs everything
    if not bad():
        deliver(now + 10 ** 6)
    if not bad():
        top = max(truth)
        m = truth[top]
        pr = [p for p in sc['last']]
        code, value = sc['last'][0][3:5] if sc['last'] else ('00', '00' * 8)
        for i in range(min(4, max(1, len(m['ins'])))):
            for t in (1, 3):
                for acp in (False, True):
                    if m['ins'] or fam == 'spr':
                        pr.append([i, t, acp, code, value, False])
        if not m['ins'] and fam in ('ow', 'sap'):
            pr = [p[:5] + [True] for p in pr]
        for n in range(3):
            if not bad() and (has[n] == top or load(n, top)):
                sign(n, pr)
                res.ev('end', n, list(top))
    res.simtime += now
    for n in nodes:
        n.stop()
    res.nontrivial = (len({n for n, _ in signed}) >= 2
                      and len({v for _, v in signed}) >= 2)
