'''C19: nodes relay what the policy allows, and nothing stops them.

Nodes apply the standardness policy to every transaction that reaches them
and relay what is standard. Clients and hostile peers submit transactions
near every edge of the policy (output templates, key sizes, data carriers,
dust, push-only script_sigs, sizes, versions) and scripts that do not even
parse; links damage transactions (bytes flipped, cut), lose, repeat and
reorder them; nodes crash and restart from what they stored; calls are
interrupted. Oracle: the policy written down from its documentation over an
independent script parser. Every verdict is the policy's, at every node, each
time; no transaction makes a policy call raise; once faults stop, every
standard transaction has reached every node and no other was relayed.
'''
from sim import core, edits, gen, lib, model, trace, wire
from sim.checks import c15, c16
from sim.gen import push, rb

ID = 'C19'
RUNS = dict(quick=4000, thorough=300000)
COMPONENTS = dict(real=['riemann.networks.standard', 'script.serialization',
                        'encoding.addresses', 'riemann.tx (Tx)'],
                  stub=['relay network', 'storage of nodes'])
NONTRIVIAL = 'some transactions were standard and some not, and a message ' \
    'was lost or damaged'
STATES = 'digest of (output templates, dust, data carriers, script_sig ' \
    'class, verdict)'


class Stop(BaseException):
    pass


# -------------------------------------------------------------- the policy

def ops_of(net, s):
    try:
        return c15.read_bytes(net, s)
    except c15.Refused:
        return None


def push_only(net, s):
    'True, False or None (open)'
    ops = ops_of(net, s)
    if ops is None:
        return False
    codes = [o for o in ops if not isinstance(o, bytes)]
    if any(c >= 97 for c in codes):
        return False
    return None if 79 in codes or 80 in codes else True


def key(o):
    'is this element a public key? None: right size, unusual first byte'
    if not isinstance(o, bytes) or len(o) not in (33, 65):
        return False
    good = (2, 3) if len(o) == 33 else (4, 6, 7)
    return True if o[0] in good else None


def carrier(net, o):
    s = bytes.fromhex(o['script'])
    if s[:1] != b'\x6a' or int(o['value'], 16):
        return False
    p = push_only(net, s[1:])
    if len(s) > 83 or p is False:
        return False
    return None if len(s) > 80 else p


def kind(net, o):
    'True (a standard form of payment), False or None'
    s = bytes.fromhex(o['script'])
    if c16.form_of(net, s):
        return True
    ops = ops_of(net, s)
    if not ops or len(ops) < 2:
        return False
    canon = c15.bytes_of(ops) == s
    v = False
    if ops[-1] == 172 and len(ops) == 2:
        v = key(ops[0])
    elif ops[-1] == 174 and len(ops) >= 4 and ops[0] in (
            81, 82, 83) and ops[-2] in (81, 82, 83):
        n, m = ops[-2] - 80, ops[0] - 80
        ks = [key(k) for k in ops[1:-2]]
        v = False if m > n or len(ks) != n or False in ks else \
            None if None in ks else True
    return v if v is not True or canon else None


def every(vs):
    'conjunction of True, False and None'
    vs = list(vs)
    return False if any(v is False for v in vs) else \
        None if any(v is None for v in vs) else True


def sig_of(i):
    return bytes.fromhex(i['sig'] if 'sig' in i else i['stack'] + i['redeem'])


def outputs_ok(net, m):
    cs = [carrier(net, o) for o in m['outs']]
    vs = []
    for o, c in zip(m['outs'], cs):
        # below 550: only outputs that begin like a witness key hash
        dust = model.le(o['value']) < 550 and o['script'][:4] != '0014'
        vs.append(c if c is not False else False if dust else kind(net, o))
    if sum(c is not False for c in cs) > 1:
        vs.append(False if sum(c is True for c in cs) > 1 else None)
    return every(vs)


def policy(net, m, raw, bare):
    vs = [m['version'] in ('01000000', '02000000'),
          len(bare) * 3 + len(raw) <= 400000]
    for i in m['ins']:
        s = sig_of(i)
        vs.append(len(s) <= 1650)
        vs.append(push_only(net, s))
    vs.append(outputs_ok(net, m))
    return every(vs)


# ------------------------------------------------------------- generation

def a_key(rng):
    n = rng.pick([(6, 33), (3, 65), (.5, 32), (.5, 34), (.5, 64), (.5, 66),
                  (.3, 20)])
    return bytes([rng.choice([2, 3] if n == 33 else [4])
                  if rng.chance(.9) else rng.randrange(256)]) + rb(rng, n - 1)


def output(rng):
    k = rng.randrange(13)
    v = rng.pick([(6, rng.randint(550, 10 ** 9)),
                  (2, rng.choice([0, 1, 293, 294, 329, 330, 545, 546, 548,
                                  549, 550, 551, 2 ** 16, 2 ** 32]))])
    h = rb(rng, 32)
    if k == 0:
        s = b'\x76\xa9\x14' + h[:20] + b'\x88\xac'
    elif k == 1:
        s = b'\xa9\x14' + h[:20] + b'\x87'
    elif k == 2:
        s = b'\0\x14' + h[:20]
        if rng.chance(.3):
            v = rng.choice([0, 1, 293, 294, 549])
    elif k == 3:
        s = b'\0\x20' + h
    elif k == 4:
        s = push(a_key(rng)) + b'\xac'
    elif k in (5, 6):
        n = rng.pick([(1, 1), (2, 2), (2, 3), (.5, 4), (.3, 0)])
        q = rng.randint(1, max(1, n)) if rng.chance(.9) else rng.choice(
            [0, 4, n + 1, 16, 13])
        declared = n if rng.chance(.9) else rng.choice([1, 2, 3, 4])
        s = bytes([80 + q if q else 0]) + b''.join(
            push(a_key(rng)) for _ in range(n)) + bytes(
            [80 + declared if declared else 0, 174])
        if rng.chance(.1):
            s = s[1:]
        elif rng.chance(.1):
            s = push(rb(rng, rng.choice([1, 2]))) + s[1:]
        elif rng.chance(.07):
            s = s[:-1] + b'\xaf'
    elif k in (7, 8):
        n = rng.choice([0, 1, 4, 20, 32, 33, 34, 35, 36, 40, 70, 74, 75, 76,
                        77, 78, 79, 80, 81, 90])
        s = b'\x6a' + (push(rb(rng, n)) if rng.chance(.8) else b''.join(
            push(rb(rng, rng.choice([1, 4, 20])))
            for _ in range(rng.randint(0, 3))))
        if rng.chance(.15):
            s += rng.choice([b'\x51', b'\x76', b'\x61', b'\xac', b'\x4c'])
        if rng.chance(.8):
            v = 0
    elif k == 9:
        s = c16.near(rng)
    elif k == 10:
        s = rng.choice([b'', b'\xab', b'\x4e\1\0\0\0a', b'\x4b', b'\xba',
                        b'\x51', b'\xac', b'\xae', b'\x51\xae', b'\x51\x51'
                        b'\xae', b'\x76\xac', b'\x6a\xab', b'\x6a\x4b',
                        b'\x51\x76\x51\xae', b'\x51\0\x51\xae', b'\0\xac',
                        b'\x4c', b'\x4d\1', b'\x60' + push(a_key(rng))
                        + b'\x51\xae', b'\x51' + push(a_key(rng))
                        + b'\x61\xae'])
    elif k == 11:
        s = bytes.fromhex(gen.out_script(rng))
    else:
        s = bytes([rng.choice([0x51, 0x52, 0x60])]) + push(
            rb(rng, rng.choice([2, 20, 32, 40])))
    return dict(value=(v & (2 ** 64 - 1)).to_bytes(8, 'little').hex(),
                script=s[:251].hex())


def sig(rng):
    k = rng.randrange(8)
    if k < 3:
        return '', ''
    if k < 5:
        return (push(rb(rng, 71)) + push(a_key(rng))).hex(), ''
    if k == 5:
        return (b'\0' + push(rb(rng, 71))).hex(), push(
            gen.redeem_script(rng)).hex()
    if k == 6:
        return rng.choice(['51', '60', '00', '4f', '50', '61', '76', 'ac',
                           'ab', '4b', '4e', '0161', '4c00', '0061', '5161',
                           '01' + '6a', 'ff', '04deadbeef76']), ''
    if rng.chance(.3):
        n = rng.choice([1648, 1649, 1650]) - 1 - 6 * 256
        return (b'\0' + (b'\x4d\xfd\0' + rb(rng, 253)) * 6
                + b'\x51' * n).hex(), ''
    return gen.script_sig(rng)


def gen_(rng, tier):
    net = rng.pick([(5, 'bitcoin_main'), (2, rng.choice(gen.SEGWIT_NETS)),
                    (2, rng.choice(gen.FORK_NETS)),
                    (2, rng.choice(gen.PLAIN_NETS))])
    txs = []
    good = rng.choice([.2, .6])
    for _ in range(rng.randint(2, 5)):
        m = gen.btc(rng, net, ins=rng.randint(1, 2), outs=1)
        if rng.chance(.85):
            m['version'] = rng.choice(['01000000', '02000000'])
        elif rng.chance(.5):
            m['version'] = rng.choice(
                ['00000000', '03000000', '01000001', '02010000', '01000080',
                 '00000001', '00020000'])
        m['outs'] = []
        for _ in range(rng.pick([(3, 1), (3, 2), (1, 3), (.5, 5)])):
            o = output(rng)
            for _ in range(4):
                if rng.random() > good or kind(net, o) or carrier(net, o):
                    break
                o = output(rng)
            if m['outs'] and rng.chance(.12):
                # (the same again, or for another value)
                o = dict(rng.choice(m['outs']),
                         **{} if rng.chance(.6) else dict(value=o['value']))
            m['outs'].append(o)
        for i in m['ins']:
            i['stack'], i['redeem'] = sig(rng) if rng.chance(.7) else ('', '')
        if rng.chance(.004):
            m['outs'] = [dict(value='e803000000000000', script='0014'
                              + '11' * 20)] * rng.choice(
                [3220, 3221, 3222, 3223, 3224, 3225, 3226, 3227, 3228])
        if rng.chance(.004) and gen.NETS[net]['segwit']:
            # nearly all of the weight is witnesses, or size alone
            m['flag'] = True
            m['wits'] = [[(b'w' * 500).hex()] * rng.choice(
                [190, 200, 210, 260, 400, 780, 820]) if not k else []
                for k in range(len(m['ins']))]
        if rng.chance(.008):
            # many inputs or outputs; one of them may be refused
            k = rng.choice(['ins', 'outs'])
            n = rng.choice([33, 65, 100, 129, 200, 251, 252, 253, 254, 255,
                            256, 257, 260])
            x = m[k][:1] * n
            if k == 'ins':
                x = [dict(i, stack='', redeem='') for i in x]
            else:
                x = [dict(value='e803000000000000',
                          script='0014' + '11' * 20)] * n
            if rng.chance(.7):
                j = rng.choice([0, -1, -1, -2, n // 2])
                x[j] = m[k][-1]
                if k == 'ins' and rng.chance(.7):
                    x[j] = dict(x[j], stack='76', redeem='')
                elif rng.chance(.5):
                    x[j] = dict(x[j], value='00' * 8)
            m[k] = x
            if m.get('wits'):
                m['flag'], m['wits'] = False, None
        if rng.chance(.012) and gen.NETS[net]['segwit']:
            # a weight at the edge
            m['flag'] = True
            m['wits'] = [[] for _ in m['ins']]
            if rng.chance(.4):
                m['outs'] = [dict(value='e803000000000000', script='0014'
                                  + '11' * 20)] * rng.randint(1, 3000)
            goal = 400000 + rng.choice([-4, -3, -2, -1, 0, 0, 1, 1, 2, 3, 4])
            bare = 4 * len(model.no_witness(m))
            here = bare - len(model.no_witness(m)) + len(model.ser(m))
            if len(m['ins']) > 1:
                m['wits'][1] = [(b'v' * 60).hex()] * rng.randrange(4)
            n = max(0, goal - here - 1600) // 503
            m['wits'][0] = [(b'w' * 500).hex()] * n
            rest = goal - 3 * len(model.no_witness(m)) - len(model.ser(m))
            while rest > 400:
                m['wits'][0] = m['wits'][0] + [(b'w' * 200).hex()]
                rest = goal - 3 * len(model.no_witness(m)) - len(model.ser(m))
            if rest > 0:
                k = rest - 1 if rest <= 253 else rest - 3
                m['wits'][0] = m['wits'][0] + [(b'w' * k).hex()]
        txs.append(m)
    msgs = []
    for i in range(len(txs)):
        for _ in range(rng.randint(1, 3)):
            d = dict(tx=i, to=rng.randrange(3))
            if rng.chance(.3):
                d['dmg'] = [rng.choice(['flip', 'flip', 'cut', 'zero']),
                            rng.random(), rng.randrange(256)]
            elif rng.chance(.15):
                d['lost'] = 1
            if rng.chance(.15):
                d['built'] = 1      # arrives as an object
            if rng.chance(.15):
                d['also'] = rng.choice([rng.choice(gen.FORK_NETS),
                                        rng.choice(gen.PLAIN_NETS),
                                        'bitcoin_main'])
            if rng.chance(.12):
                d['int'] = rng.random()
            if rng.chance(.1):
                d['crash'] = rng.randrange(3)
            msgs.append(d)
    rng.shuffle(msgs)
    return dict(net=net, txs=txs, msgs=msgs,
                order=[rng.randrange(1 << 20) for _ in range(24)])


# -------------------------------------------------------------- execution

def execute(sc, res):
    std = lib.riemann.networks.standard
    net, txs = sc['net'], sc['txs']
    lib.select(net)
    pools = [{} for _ in range(3)]      # raw -> standard?
    queue = []
    seen, bad = set(), 0
    verdicts = {}

    def ask(fn, arg, h, want, what, **info):
        'one policy call'
        res.real_calls += 1
        if 'int' in h:
            def act():
                raise Stop()
            inj = trace.Injector(int(h['int'] * 150), act, 'line',
                                 skip_critical=True)
            try:
                inj.run(lambda: fn(arg))
            except Stop:
                res.fault('call_interrupted')
            except Exception:
                pass
        try:
            v = fn(arg)
        except Exception as e:
            res.fail('the policy raised', call=what, net=net,
                     error=lib.exc(e, True), **info)
            return None
        if want is not None and bool(v) != want:
            res.fail('relayed against the policy' if v else
                     'standard transaction not relayed', call=what, net=net,
                     got=repr(v), **info)
        return bool(v)

    def receive(k, raw, h, obj=None):
        'node k gets a transaction'
        if raw in pools[k]:
            return
        if obj is None:
            try:
                m, used = model.parse('btc', raw)
                if used != len(raw) or not model.sane(m) or any(
                        len(o['script']) >= 504 for o in m['outs']):
                    return
            except (model.Bad, IndexError):
                return
            try:
                obj = wire.decode('btc', raw, 'bytes')
            except Exception:
                # (decoders are C06, C07 and C09)
                return
            if bytes(obj.to_bytes()) != raw:
                return
        else:
            m, obj = obj
        bare = model.no_witness(m)
        want = policy(net, m, raw, bare)
        if 'also' in h:
            # the process serves another chain in between
            lib.select(h['also'])
            res.fault('network_switched')
            ask(std.check_is_standard_tx, obj, {},
                policy(h['also'], m, raw, bare), 'check_is_standard_tx',
                other=h['also'], tx=raw.hex()[:1500])
            lib.select(net)
            if res.violations:
                return
        v = ask(std.check_is_standard_tx, obj, h, want, 'check_is_standard_tx',
                tx=raw.hex()[:1500])
        if res.violations:
            return
        verdicts.setdefault(raw, v)
        if verdicts[raw] != v:
            res.fail('nodes disagree', tx=raw.hex()[:1500])
        kinds = [(kind(net, o), carrier(net, o)) for o in m['outs'][:4]]
        res.state(kinds, [model.le(o['value']) < 550 for o in m['outs'][:4]],
                  [push_only(net, sig_of(i))
                   for i in m['ins']], v)
        res.ev('verdict', k, core.digest(raw.hex()), v)
        ask(std.check_tx_size_small, obj, {}, len(bare) >= 82,
            'check_tx_size_small', tx=raw.hex()[:300])
        ask(std.check_is_standard, obj, {}, outputs_ok(net, m),
            'check_is_standard', tx=raw.hex()[:1500])
        for i, r in list(zip(obj.tx_ins, m['ins']))[:3]:
            if ops_of(net, sig_of(r)) is not None:
                ask(std.is_push_only, i.script_sig, {},
                    push_only(net, sig_of(r)), 'is_push_only',
                    script=sig_of(r).hex())
        for o, r in list(zip(obj.tx_outs, m['outs']))[:5]:
            ask(std.is_op_return, o, {}, carrier(net, r), 'is_op_return',
                output=model.PARTS['txout'][0](r).hex())
            ask(std.is_standard_output_type, o, {}, kind(net, r),
                'is_standard_output_type',
                output=model.PARTS['txout'][0](r).hex())
        if res.violations:
            return
        if bytes(obj.to_bytes()) != raw:
            res.fail('the policy changed the transaction')
        pools[k][raw] = v
        seen.add(v)
        if v:
            for j in range(3):
                if j != k:
                    queue.append((j, raw))

    def relay(lossy):
        nonlocal bad
        n = 0
        while queue and not res.violations:
            s = sc['order'][n % len(sc['order'])]
            n += 1
            j, raw = queue.pop(s % len(queue))
            res.simtime += 1
            if lossy and s % 5 == 0:
                res.fault('relay_lost')
                bad += 1
                continue
            if s % 7 == 0:
                res.fault('relay_repeated')
                receive(j, raw, {})
            receive(j, raw, {})

    raws = [model.ser(m) for m in txs]
    for d in sc['msgs']:
        if d['tx'] >= len(txs):
            continue
        raw = raws[d['tx']]
        if d.get('lost'):
            res.fault('message_lost')
            bad += 1
            continue
        if d.get('dmg'):
            how, at, v = d['dmg']
            i = min(len(raw) - 1, int(at * len(raw)))
            raw = raw[:i] if how == 'cut' else raw[:i] + bytes(
                [0 if how == 'zero' else raw[i] ^ (v or 1)]) + raw[i + 1:]
            res.fault('message_' + how)
            bad += 1
            receive(d['to'], raw, d)
        elif d.get('built'):
            receive(d['to'], raw, d, (txs[d['tx']],
                                      edits.build_from(txs[d['tx']])))
        else:
            receive(d['to'], raw, d)
        if 'crash' in d:
            # what was relayed is stored; verdicts are not
            k = d['crash'] % 3
            old, pools[k] = pools[k], {}
            res.fault('crash_restart')
            for r in old:
                receive(k, r, {})
        relay(True)
        if res.violations:
            return
    # faults over
    for raw, m in zip(raws, txs):
        receive(0, raw, {}, (m, edits.build_from(m)))
    for k in range(3):
        for raw in list(pools[k]):
            if pools[k][raw]:
                queue.extend((j, raw) for j in range(3))
    relay(False)
    if res.violations:
        return
    for raw, m in zip(raws, txs):
        if policy(net, m, raw, model.no_witness(m)):
            for k in range(3):
                if not pools[k].get(raw):
                    res.fail('standard transaction did not reach a node',
                             node=k, tx=raw.hex()[:1500])
    res.nontrivial = len(seen) == 2 and bad > 0
