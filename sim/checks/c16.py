'''C16: addresses and output scripts correspond one to one.

Watchers see output scripts on a chain and turn them into addresses, payers
turn addresses back into scripts, address books of several networks do both in
turn over many hops, in cash and in legacy form. Scripts are damaged in
storage or on the way (flipped, cut, extended, another template, a witness
version or hash length nobody uses), books have the wrong network selected,
calls are interrupted and repeated, returned buffers are scribbled over.
Oracle: an independent table of output forms and independent address codecs.
A standard script gets exactly its address and the address gives exactly that
script; anything else gets no address; no two scripts of a network ever share
an address.
'''
from sim import gen, lib, model, trace
from sim.gen import rb
from sim.model import NETS

ID = 'C16'
RUNS = dict(quick=6000, thorough=400000)
COMPONENTS = dict(real=['riemann.encoding.*', 'script.serialization',
                        'tx_builder output scripts', 'network prefixes'],
                  stub=['links between watchers and payers', 'storage'])
NONTRIVIAL = 'a damaged script got no address and another made two hops'
STATES = 'digest of (network, direction, form, damage, verdict)'


class Stop(BaseException):
    pass


def forms(net):
    return ['p2pkh', 'p2sh'] + (['p2wpkh', 'p2wsh'] if NETS[net]['segwit']
                                else [])


def form_of(net, s):
    '(form, hash) of an output script, or None'
    if len(s) == 25 and s[:3] == b'\x76\xa9\x14' and s[23:] == b'\x88\xac':
        return 'p2pkh', s[3:23]
    if len(s) == 23 and s[:2] == b'\xa9\x14' and s[22:] == b'\x87':
        return 'p2sh', s[2:22]
    if NETS[net]['segwit']:
        if len(s) == 22 and s[:2] == b'\0\x14':
            return 'p2wpkh', s[2:]
        if len(s) == 34 and s[:2] == b'\0\x20':
            return 'p2wsh', s[2:]
    return None


def address(net, form, h, cash):
    kind = form
    if cash and NETS[net]['cash_prefix'] is not None:
        kind = {'p2pkh': 'cash_pkh', 'p2sh': 'cash_sh'}[form]
    return model.make_address(net, kind, h)


def near(rng):
    'output scripts that are nearly standard'
    h = rb(rng, rng.choice([20, 20, 20, 32, 32, 19, 21, 31, 33]))
    n = bytes([len(h)])
    return rng.choice([
        b'\x76\xa9' + n + h + b'\x88\xac', b'\xa9' + n + h + b'\x87',
        b'\0' + n + h, bytes([rng.choice([0x51, 0x52, 0x60])]) + n + h,
        b'\x76\xa9\x14' + h + b'\x88\xad', b'\x76\xa9\x14' + h + b'\x87',
        b'\xa9\x14' + h + b'\x88', b'\xa9\x14' + h + b'\x87\x69',
        b'\xaa' + n + h + b'\x87', b'\x76\xa8\x14' + h + b'\x88\xac',
        b'\x76\xc0' + n + h + b'\x88\xac', b'\x14' + h, h,
        b'\x21\x02' + h + b'\xac', b'\x6a' + n + h, b'',
        b'\x76\xa9\x4c\x14' + h + b'\x88\xac', b'\0\x4c' + n + h,
        b'\x76\xa9\x14' + h + b'\x88\xac\x61'])


def damage(rng):
    return dict(how=rng.choice(['flip', 'flip', 'cut', 'head', 'tail', 'drop',
                                'insert', 'append', 'last', 'first']),
                at=rng.random(), v=rng.randrange(256),
                n=rng.choice([1, 1, 2, 3]))


def hurt(d, s):
    x = bytearray(s)
    n = len(x)
    i = min(n - 1, int(d['at'] * n)) if n else 0
    how, v = d['how'], d['v']
    if how == 'flip' and n:
        x[i] ^= v or 1
    elif how == 'cut':
        x = x[:i]
    elif how == 'head':
        x = x[d['n']:]
    elif how == 'tail':
        x = x[:max(0, n - d['n'])]
    elif how == 'drop':
        del x[i:i + d['n']]
    elif how == 'insert':
        x[i:i] = bytes([v])
    elif how == 'append':
        x += bytes([v]) * d['n']
    elif how == 'last' and n:
        x[-1 if v & 1 else max(-2, -n)] = d['v']
    elif how == 'first' and n:
        x[min(n - 1, d['n'] - 1)] = d['v']
    return bytes(x)


TEMPLATE = b'\x76\xa9\x14\x88\xac\x87\0\x20\x0a\x51\xff\x80'


def shaped(rng):
    'a hash with bytes of the templates around it'
    t = rng.choice([b'\x88\xac', b'\x87', b'\x76\xa9\x14', b'\xa9\x14',
                    b'\0\x14', b'\0\x20', b'\0', b'\xff',
                    bytes([rng.choice(TEMPLATE)])]) * rng.choice([1, 1, 2, 5])
    k = rng.randrange(4)
    h = rb(rng, 32)
    if k == 0:
        return (t + h)[:32]
    if k == 1:      # (the end of both lengths)
        return (h[:20 - len(t)] + t + h)[:32 - len(t)] + t
    if k == 2:
        return (t * 32)[:32]
    return bytes(rng.choice(TEMPLATE) for _ in range(32))


def variants(kind, s, v):
    'all scripts one change of a kind away'
    n, every = len(s), range(256)
    if kind == 'frame':
        at = [i for i in range(n) if i < 3 or i > n - 4]
        return [s[:i] + bytes([x]) + s[i + 1:] for i in at for x in every]
    if kind == 'hash':
        return [s[:i] + bytes([x]) + s[i + 1:] for i in range(n)
                for x in TEMPLATE + bytes([v])]
    if kind == 'insert':
        return [s[:i] + bytes([x]) + s[i:] for i in range(n + 1)
                for x in TEMPLATE + bytes([v])]
    if kind == 'around':
        return [y for x in every for y in (
            bytes([x]) + s, s + bytes([x]), bytes([v, x]) + s,
            s + bytes([x, v]), bytes([x]) + s[1:-1], s[1:] + bytes([x]))]
    if kind == 'swap':
        return [s[:i] + s[i:i + 2][::-1] + s[i + 2:] for i in range(n - 1)] \
            + [s[i:] + s[:i] for i in range(1, n)] + [s[::-1]]
    return [s[:i] + s[j:] for i in range(n) for j in range(i, n + 1)]


def gen_(rng, tier):
    nets = [gen.any_net(rng) for _ in range(rng.randint(1, 3))]
    if rng.chance(.4):
        nets.append(rng.choice(gen.CASH_NETS))
    if rng.chance(.4):
        nets.append(rng.choice(gen.SEGWIT_NETS))
    hashes = [rb(rng, 32).hex() for _ in range(3)] + ['00' * 32, 'ff' * 32,
                                                     '00' * 3 + rb(
                                                         rng, 29).hex(),
        shaped(rng).hex(), shaped(rng).hex()]
    texts = [gen.good_script(rng) for _ in range(2)]
    keys = [('02' if rng.chance(.5) else '03') + rb(rng, 32).hex(),
            '04' + rb(rng, 64).hex()]
    steps = []
    for _ in range(rng.randint(5, 25)):
        net = rng.choice(nets)
        k = rng.pick([(6, 'watch'), (2, 'near'), (2, 'key'), (2, 'redeem')])
        st = dict(do=k, net=net, dt=rng.randint(1, 60))
        if k == 'watch':
            f = rng.choice(forms(net) if rng.chance(.85) else
                           ['p2wpkh', 'p2wsh'])
            st['form'], st['hash'] = f, rng.choice(hashes)
        elif k == 'near':
            st['raw'] = near(rng).hex()
        elif k == 'key':
            st['key'] = rng.choice(keys)
        else:
            st['text'] = rng.choice(texts)
        if k in ('key', 'redeem'):
            st['wit'] = rng.chance(.4)
            st['via'] = rng.choice(['short', 'full'])
        if k in ('watch', 'near') and rng.chance(.45):
            st['dmg'] = damage(rng)
        if k in ('watch', 'near') and rng.chance(.02):
            st['sweep'] = [rng.choice(['frame', 'hash', 'insert', 'around',
                                       'swap', 'cut']), rng.randrange(256),
                           rng.choice([None, False])]
        st['hops'] = [dict(cash=rng.choice([None, True, False]),
                           ba=rng.chance(.3),
                           scribble=rng.randrange(256) if rng.chance(.2)
                           else None,
                           wrong=rng.choice(nets) if rng.chance(.05)
                           else None,
                           int=rng.random() if rng.chance(.08) else None)
                      for _ in range(rng.randint(1, 4))]
        steps.append(st)
    return dict(steps=steps)


def execute(sc, res):
    A, T = lib.MODULES['addr'], lib.MODULES['tb']
    book = {}       # (net, address) -> script
    refused = far = 0

    def call(fn, h):
        res.real_calls += 1
        if h.get('int') is not None:
            def act():
                raise Stop()
            inj = trace.Injector(int(h['int'] * 60), act, 'line',
                                 skip_critical=True)
            try:
                inj.run(fn)
            except Stop:
                res.fault('call_interrupted')
            except Exception:
                pass
        try:
            return fn(), None
        except Exception as e:
            if not trace.from_lib(e) and not isinstance(
                    e, (ValueError, TypeError, IndexError)):
                raise
            return None, lib.exc(e, True)

    def learn(net, a, s):
        'nobody else owns this address'
        if book.setdefault((net, a), s) != s:
            res.fail('two scripts share an address', net=net, address=a,
                     first=book[net, a].hex(), second=s.hex())

    def to_address(net, s, h, dmg=None):
        lib.select(net)
        arg = bytearray(s) if h.get('ba') else s
        cash = h.get('cash')
        kw = {} if cash is None else dict(cashaddr=cash)
        a, err = call(lambda: A.from_output_script(arg, **kw), h)
        f = form_of(net, s)
        res.state(net, 'a', f and f[0], dmg, err is None)
        res.ev('to_address', net, s.hex(), a, err)
        if bytes(arg) != s:
            res.fail('argument changed', net=net, script=s.hex())
        if f is None:
            if err is None:
                res.fail('a script that is not standard got an address',
                         net=net, script=s.hex(), got=a)
            return None
        want = address(net, *f, cash is not False)
        if err is not None:
            res.fail('standard script got no address', net=net,
                     script=s.hex(), form=f[0], error=err)
        elif a != want:
            res.fail('wrong address', net=net, script=s.hex(), form=f[0],
                     got=a, want=want, cash=cash)
        else:
            learn(net, a, s)
            return a
        return None

    def to_script(net, a, h, sent):
        'sent: the script the address was made from, on this network'
        lib.select(net)
        s, err = call(lambda: A.to_output_script(a), h)
        res.ev('to_script', net, a, s and bytes(s).hex(), err)
        ok = {model.script_for(*d) for d in model.destination(net, a)}
        res.state(net, 's', sent is not None, len(ok), err is None)
        if sent is not None:
            ok = {sent}
        if err is not None:
            if ok:
                res.fail('address gives no script', net=net, address=a,
                         error=err)
            return None
        b = bytes(s)
        if b not in ok:
            res.fail('address gives another script', net=net, address=a,
                     got=b.hex(), want=[x.hex() for x in ok])
            return None
        hs, err = call(lambda: A.parse_hash(a), h)
        if err is not None or bytes(hs) != form_of(net, b)[1]:
            res.fail('wrong hash', net=net, address=a,
                     got=err or bytes(hs).hex())
        if h.get('scribble') is not None:
            for x in (s, hs):
                if isinstance(x, bytearray) and x:
                    x[h['scribble'] % len(x)] ^= 0xff
                    res.fault('returned_buffer_scribbled')
        return b

    def sweep(net, s, kind, v, cash):
        'every script one change away'
        lib.select(net)
        kw = {} if cash is None else dict(cashaddr=cash)
        n = 0
        for t in sorted(set(variants(kind, s, v))):
            f = form_of(net, t)
            want = f and address(net, *f, cash is not False)
            try:
                a, err = A.from_output_script(t, **kw), None
            except Exception as e:
                a, err = None, lib.exc(e, True)
            n += 1
            if a != want:
                res.fail('wrong address for a script' if f else
                         'a script that is not standard got an address',
                         net=net, script=t.hex(), got=a, error=err,
                         want=want, after='sweep of ' + kind)
                return
            if a is not None:
                learn(net, a, t)
                b = A.to_output_script(a)
                if bytes(b) != t:
                    res.fail('address gives another script', net=net,
                             address=a, got=bytes(b).hex(), want=[t.hex()])
                    return
        res.real_calls += n
        res.fault('script_sweep_' + kind, n)

    def origin(st):
        'the script a key or redeem script is paid with, and its address'
        net = st['net']
        lib.select(net)
        wit = st['wit']
        can = NETS[net]['segwit']
        h = st['hops'][0]
        if st['do'] == 'key':
            x = bytes.fromhex(st['key'])
            full, mk = A.make_pkh_address, T.make_pkh_output_script
            short = (A.make_p2wpkh_address if wit else A.make_p2pkh_address
                     if h['cash'] is not False
                     else A.make_legacy_p2pkh_address)
            form = 'p2wpkh' if wit and can else 'p2pkh'
            hs = model.hash160(x, net)
        else:
            x = st['text']
            full, mk = A.make_sh_address, T.make_sh_output_script
            short = (A.make_p2wsh_address if wit else A.make_p2sh_address
                     if h['cash'] is not False
                     else A.make_legacy_p2sh_address)
            form = 'p2wsh' if wit and can else 'p2sh'
            from sim.checks import c15
            ser = c15.bytes_of(c15.read_text(net, x))
            hs = model.sha256(ser) if form == 'p2wsh' \
                else model.hash160(ser, net)
        kw = {} if h['cash'] is None else dict(cashaddr=h['cash'])
        if wit:
            kw['witness'] = True
        if st['via'] == 'short':
            a, err = call(lambda: short(x), h)
            cash = h['cash'] is not False or wit
        else:
            a, err = call(lambda: full(x, **kw), h)
            cash = h['cash'] is not False
        s = model.script_for(form, hs)
        res.ev('origin', net, st['do'], wit, a, err)
        res.state(net, st['do'], wit, st['via'], h['cash'], err is None)
        if err is not None:
            if can or not wit:
                res.fail('no address', net=net, what=st['do'], witness=wit,
                         error=err)
            return
        want = address(net, form, hs, cash)
        if a != want:
            res.fail('wrong address', net=net, made_from=st['do'],
                     witness=wit, got=a, want=want)
            return
        learn(net, a, s)
        if can or not wit:
            o, err = call(lambda: mk(x, witness=wit), h)
            if err is not None or bytes(o) != s:
                res.fail('script and address differ', net=net, address=a,
                         got=err or bytes(o).hex(), want=s.hex())
        to_script(net, a, h, s)

    for st in sc['steps']:
        res.simtime += st['dt']
        net = st['net']
        if st['do'] in ('key', 'redeem'):
            origin(st)
            if res.violations:
                return
            continue
        if st['do'] == 'watch':
            h = bytes.fromhex(st['hash'])
            s = model.script_for(st['form'],
                                 h if st['form'] == 'p2wsh' else h[:20])
        else:
            s = bytes.fromhex(st['raw'])
        dmg = None
        if st.get('dmg'):
            d = hurt(st['dmg'], s)
            if d != s:
                dmg = st['dmg']['how']
                res.fault('script_' + dmg)
                s = d
        if st.get('sweep'):
            sweep(net, s, *st['sweep'])
            if res.violations:
                return
        for n, h in enumerate(st['hops']):
            a = to_address(net, s, h, dmg)
            if res.violations:
                return
            if a is None:
                refused += dmg is not None
                break
            if h.get('wrong') and h['wrong'] != net:
                res.fault('wrong_network')
                to_script(h['wrong'], a, h, None)
            b = to_script(net, a, h, s)
            if res.violations or b is None:
                return
            far += n == 1
    res.nontrivial = bool(refused and far)
