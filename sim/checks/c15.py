'''C15: scripts survive the way between text and bytes, or are refused.

Parties exchange scripts as text, hex or bytes over several hops; every hop
turns what it received into the other form and passes it on. Links damage
messages (cut, flipped, inserted, lost and repeated parts, tokens exchanged,
other white space or case), receivers have the wrong network selected, calls
are interrupted and repeated, returned buffers are scribbled over by their
holders, and sessions on networks with different opcodes interleave. Oracle:
an independent opcode table and parser. Every conversion gives exactly the
operations of what was received, or an error when it is cut inside an
operation or names an operation that is unknown or not supported; undamaged
messages arrive with the operations they left with, in canonical form.
'''
from sim import gen, lib, model, trace

ID = 'C15'
RUNS = dict(quick=12000, thorough=800000)
COMPONENTS = dict(real=['riemann.script.serialization',
                        'riemann.script.opcodes', 'network opcode changes'],
                  stub=['links between the parties'])
NONTRIVIAL = 'a damaged message was refused and another one arrived'
STATES = 'digest of (network kind, direction, damage, operation at the ' \
    'damage, neighbours, outcome)'

NAMES = {}
NAMES.update(zip(range(97, 176), '''NOP VER IF NOTIF VERIF VERNOTIF ELSE ENDIF
VERIFY RETURN TOALTSTACK FROMALTSTACK 2DROP 2DUP 3DUP 2OVER 2ROT 2SWAP IFDUP
DEPTH DROP DUP NIP OVER PICK ROLL ROT SWAP TUCK CAT SUBSTR LEFT RIGHT SIZE
INVERT AND OR XOR EQUAL EQUALVERIFY RESERVED1 RESERVED2 1ADD 1SUB 2MUL 2DIV
NEGATE ABS NOT 0NOTEQUAL ADD SUB MUL DIV MOD LSHIFT RSHIFT BOOLAND BOOLOR
NUMEQUAL NUMEQUALVERIFY NUMNOTEQUAL LESSTHAN GREATERTHAN LESSTHANOREQUAL
GREATERTHANOREQUAL MIN MAX WITHIN RIPEMD160 SHA1 SHA256 HASH160 HASH256
CODESEPARATOR CHECKSIG CHECKSIGVERIFY CHECKMULTISIG CHECKMULTISIGVERIFY'''
                 .split()))
assert NAMES[175] == 'CHECKMULTISIGVERIFY' and NAMES[171] == 'CODESEPARATOR'
NAMES.update({0: '0', 79: '1NEGATE', 80: 'RESERVED', 255: 'INVALIDOPCODE'})
NAMES.update({80 + _i: str(_i) for _i in range(1, 17)})
NAMES.update({175 + _i: 'NOP%d' % _i for _i in range(1, 11)})
NAMES[177], NAMES[178] = 'CHECKLOCKTIMEVERIFY', 'CHECKSEQUENCEVERIFY'
NAMES = {k: 'OP_' + v for k, v in NAMES.items()}
REFUSED = (171, 78)
CODES = {v: k for k, v in NAMES.items()}
CODES.update(OP_NOP2=177, OP_NOP3=178)
OPEN = {'OP_PUSH_%d' % _i for _i in range(1, 76)} | {'OP_PUSHDATA1',
                                                     'OP_PUSHDATA2'}
HEX = set('0123456789abcdefABCDEF')


class Refused(Exception):
    pass


class Open(Exception):
    pass


def names(net):
    if model.fam_of(net) == 'dcr':
        t = dict(NAMES)
        t[168], t[192] = 'OP_BLAKE256', 'OP_SHA256'
        return t
    return NAMES


def codes(net):
    if model.fam_of(net) == 'dcr':
        t = dict(CODES)
        t['OP_BLAKE256'], t['OP_SHA256'] = 168, 192
        return t
    return CODES


def read_bytes(net, b):
    'list of opcodes (int) and pushed data (bytes)'
    ops, i, t = [], 0, names(net)
    while i < len(b):
        c = b[i]
        i += 1
        if 1 <= c <= 77:
            n, k = (c, 0) if c < 76 else (None, c - 75)
            if k:
                if i + k > len(b):
                    raise Refused('cut in a push length')
                n = int.from_bytes(b[i:i + k], 'little')
                i += k
            if i + n > len(b):
                raise Refused('cut in a push')
            ops.append(bytes(b[i:i + n]) if n else 0)
            i += n
        elif c in REFUSED or c not in t:
            raise Refused('opcode %d' % c)
        else:
            ops.append(c)
    return ops


def read_text(net, s):
    ops, t, is_open = [], codes(net), False
    for tok in s.split():
        if tok in OPEN:
            is_open = True
        elif tok in t and t[tok] not in REFUSED:
            ops.append(t[tok])
        elif tok and not len(tok) % 2 and set(tok) <= HEX:
            b = bytes.fromhex(tok)
            if len(b) > 65535:
                raise Refused('push of %d bytes' % len(b))
            if len(b) > 1000:
                is_open = True
            ops.append(b)
        else:
            raise Refused('token ' + tok[:40])
    if is_open:
        raise Open()
    return ops


def text_of(net, ops):
    t = names(net)
    return ' '.join(o.hex() if isinstance(o, bytes) else t[o] for o in ops)


def bytes_of(ops):
    return b''.join(gen.push(o) if isinstance(o, bytes) else bytes([o])
                    for o in ops)


# ------------------------------------------------------------- generator

LENS = [1, 2, 20, 32, 33, 65, 72, 74, 75, 76, 77, 78, 79, 171, 254, 255, 256,
        257, 520, 521, 999, 1000]


def push_data(rng):
    n = rng.choice(LENS) if rng.chance(.6) else rng.randint(1, 40)
    k = rng.randrange(6)
    if k == 0:
        return bytes([rng.choice([0, 1, 0x4c, 0x4d, 0x4e, 0xab, 0x51, 255])
                      ]) * n
    if k == 1:
        return (rng.choice([b'\0', b'\xab', b'\x4e', b'\x01'])
                + gen.rb(rng, n))[:n]
    return gen.rb(rng, n)


def tokens(rng, net):
    t = sorted(c for c in names(net) if c not in REFUSED)
    ops = []
    for _ in range(rng.choice([0, 1, 2, 4, 7, 12, 40])):
        if rng.chance(.35):
            ops.append(push_data(rng).hex())
        else:
            c = rng.choice(t)
            if rng.chance(.2):
                c = rng.choice([0, 81, 96, 168, 192, 177, 178, 255, 79,
                                172, 185])
            nm = names(net).get(c, 'OP_1')
            if c in (177, 178) and rng.chance(.4):
                nm = 'OP_NOP2' if c == 177 else 'OP_NOP3'
            ops.append(nm)
    if rng.chance(.05):
        ops.insert(rng.randint(0, len(ops)), rng.choice(
            ['OP_CODESEPARATOR', 'OP_PUSHDATA4', 'OP_PUSH_3', 'OP_PUSHDATA1',
             'OP_BLAKE256', 'OP_UNKNOWN', 'OP_17', 'op_dup', 'DUP', '0x01',
             gen.rb(rng, rng.choice([1001, 1040, 65535, 65536])).hex(),
             'abc', '0', '\u0661\u0662', '+1', '1_1', 'OP_', 'OP_NOP11']))
    return ops


def raw_form(rng, net):
    'serialized script with forms that serialize() itself never writes'
    out = b''
    t = sorted(c for c in names(net) if c not in REFUSED)
    for _ in range(rng.choice([1, 2, 3, 6, 12])):
        k = rng.randrange(8)
        if k < 3:
            out += bytes([rng.choice(t)])
        elif k < 5:
            out += gen.push(push_data(rng))
        elif k == 5:
            d = gen.rb(rng, rng.choice([0, 1, 20, 75, 76, 255]))
            out += b'\x4c' + bytes([len(d)]) + d
        elif k == 6:
            d = gen.rb(rng, rng.choice([0, 1, 76, 255, 256, 1000, 1001]))
            out += b'\x4d' + len(d).to_bytes(2, 'little') + d
        elif rng.chance(.3):
            out += bytes([rng.choice([171, 78, 186, 187, 191, 192, 193, 200,
                                      254, 255])])
    return out


def damage(rng):
    return dict(how=rng.choice(['cut', 'cut', 'flip', 'insert', 'drop',
                                'dup', 'swap', 'space', 'case', 'tail',
                                'head']),
                at=rng.random(), at2=rng.random(), v=rng.randrange(256),
                n=rng.choice([1, 1, 1, 2, 3, 20]))


CHARS = [chr(i) for i in range(9, 127)] + list('\0\x1c\x1f\x85\xa0\xe9\u0660'
                                               '\u200b\u2003\uff10\ufeff')


# (other notations of a push or an operation)
AROUND = [('0x', ''), ('0X', ''), ('<', '>'), ('[', ']'), ('"', '"'),
          ("'", "'"), ("b'", "'"), ('\\x', ''), ('', ','), ('', ';'),
          ('#', ''), ('OP_', ''), ('OP_PUSH_', ''), ('PUSH ', ''), ('-', ''),
          ('+', ''), ('0', ''), ('00', ''), ('', '0'), ('', '00'), ('', 'h'),
          ('', ' # x'), ('(', ')'), ('x', ''), ('op_', ''), ('OP ', ''),
          ('\ufeff', ''), ('', '\0'), ('0b', ''), ('', 'L'), ('', '\\')]


def variants(kind, d, a, v):
    'all messages one change of a kind away'
    n = len(d)
    i = min(n - 1, int(a * n)) if n else 0
    if kind == 'lengths':
        f = (lambda b: b.hex()) if isinstance(d, str) else gen.push
        return [f(bytes([v]) * k) for k in range(1, 1001)]
    if kind == 'cuts':
        return [d[:k] for k in range(n)] + [d[k:] for k in range(n)]
    if isinstance(d, str):
        c = [chr(33 + v % 94)]
        every, one = CHARS, lambda x: x
    else:
        c, every, one = [v], range(256), lambda x: bytes([x])
    if kind == 'forms':
        if not isinstance(d, str):
            # a push in all its forms
            k = [0, 1, 2, 20, 75, 76, 77, 255, 256, 257, 1000, 1001, 65280,
                 65535][v % 14]
            x = bytes([v]) * k
            return [p + n.to_bytes(w, 'little') + x + t
                    for w, p in ((1, b''), (1, b'\x4c'), (2, b'\x4d'),
                                 (2, b'\x4c'), (1, b'\x4d'), (4, b'\x4d'),
                                 (4, b'\x4e'))
                    for n in {k, max(0, k - 1), k + 1} if n < 1 << 8 * w
                    for t in (b'', b'\0', b'\x51', b'\x4c', b'\x4d',
                              b'\x01', x[:1])]
        w = d.split()[:12]
        return [' '.join(w[:j] + [q + w[j] + r] + w[j + 1:])
                for j in range(len(w)) for q, r in AROUND] + [
                    q + ' '.join(w) + r for q, r in AROUND] + [
                    q + u + r for u in ('51', '1', 'ff' * 33, 'OP_DUP', 'DUP')
                    for q, r in AROUND] + [
                    u.join(w) for u in (',', ', ', '\n', '', '_', '-', ';',
                                        '\x0b', '\x0c', '\x1f', '\u3000')]
    if kind == 'at':
        return [y for x in every for y in (
            d[:i] + one(x) + d[i:], d[:i] + one(x) + d[i + 1:])]
    if kind == 'ends':
        return [y for x in every for y in (
            d + one(x), one(x) + d, one(x), one(x) * 2, d + one(x) * 2)]
    if kind == 'drop':
        return [d[:k] + d[k + 1:] for k in range(n)]
    if kind == 'twice':
        return [d[:k] + d[k:k + 1] + d[k:] for k in range(n)]
    return [y for k in range(n) for x in c for y in (
        d[:k] + one(x) + d[k:], d[:k] + one(x) + d[k + 1:])]


def gen_(rng, tier):
    nets = [rng.choice(gen.BY_FAM['dcr']) if rng.chance(.35)
            else gen.any_net(rng) for _ in range(rng.randint(1, 3))]
    msgs = []
    for _ in range(rng.randint(2, 6)):
        net = rng.choice(nets)
        if rng.chance(.35):
            start = dict(raw=raw_form(rng, net).hex())
        else:
            start = dict(text=' '.join(tokens(rng, net)))
        hops = []
        for _ in range(rng.randint(1, 6)):
            h = dict(hexed=rng.chance(.3),
                     kind=rng.choice(['bytes', 'bytes', 'bytearray']))
            if rng.chance(.22):
                h['dmg'] = damage(rng)
            if rng.chance(.06):
                h['wrong'] = rng.choice(nets + gen.BY_FAM['dcr'])
            if rng.chance(.1):
                h['int'] = rng.random()
            if rng.chance(.25):
                h['scribble'] = rng.randrange(1 << 16)
            if rng.chance(.15):
                h['again'] = 1
            if rng.chance(.012):
                h['sweep'] = [rng.choice(['at', 'at', 'ends', 'drop', 'twice',
                                          'value', 'cuts', 'lengths', 'forms',
                                          'forms']),
                              rng.random(), rng.randrange(256)]
            hops.append(h)
        msgs.append(dict(net=net, start=start, hops=hops))
    order = [i for i, m in enumerate(msgs) for _ in m['hops']]
    rng.shuffle(order)
    return dict(msgs=msgs, order=order)


# ------------------------------------------------------------- execution

class Stop(BaseException):
    pass


def hurt(d, data):
    'damaged copy of text or bytes'
    is_text = isinstance(data, str)
    x = data.split(' ') if is_text and d['how'] in (
        'drop', 'dup', 'swap') else list(data) if is_text else bytearray(data)
    n = len(x)
    at = min(n - 1, int(d['at'] * n)) if n else 0
    k = d['n']
    how = d['how']
    if how == 'cut':
        x = x[:at]
    elif how == 'head':
        x = x[min(n, k):]
    elif how == 'tail':
        x = x[:max(0, n - k)]
    elif how == 'flip' and n:
        x[at] = chr(33 + d['v'] % 94) if is_text else d['v']
    elif how == 'insert':
        x[at:at] = chr(33 + d['v'] % 94) if is_text else bytes([d['v']])
    elif how == 'drop':
        x[at:at + k] = []
    elif how == 'dup':
        x[at:at] = x[at:at + k]
    elif how == 'swap' and n:
        b = min(n - 1, int(d['at2'] * n))
        x[at], x[b] = x[b], x[at]
    elif how == 'space' and is_text:
        w = ['  ', '\n', '\t', ' \r\n '][d['v'] % 4]
        return ' ' * (d['v'] % 2) + data.replace(' ', w) + w * (d['v'] & 1)
    elif how == 'case' and is_text:
        return ' '.join(t if t.startswith('OP') else t.upper()
                        for t in data.split(' ')) \
            if d['v'] % 4 else data.lower()
    if not is_text:
        return bytes(x)
    return (' ' if d['how'] in ('drop', 'dup', 'swap') else '').join(x)


def execute(sc, res):
    S = lib.riemann.script.serialization
    msgs = sc['msgs']
    st = []
    for m in msgs:
        s = m['start']
        st.append(dict(data=s['text'] if 'text' in s
                       else bytes.fromhex(s['raw']), hop=0, clean=True,
                       dead=False))
        try:
            st[-1]['ops'] = (read_text if 'text' in s else read_bytes)(
                m['net'], st[-1]['data'])
        except (Refused, Open):
            st[-1]['ops'] = None
    refused = arrived = 0

    def convert(net, data, hexed, kind, h):
        'one conversion, as the library does it'
        lib.select(net)
        is_text = isinstance(data, str)
        if is_text:
            fn = S.hex_serialize if hexed else S.serialize
            arg = data
        else:
            fn = S.hex_deserialize if hexed else S.deserialize
            arg = data.hex() if hexed else bytearray(data) \
                if kind == 'bytearray' else data
        res.real_calls += 1
        if 'int' in h:
            def act():
                raise Stop()
            inj = trace.Injector(int(h['int'] * 40), act, 'line',
                                 skip_critical=True)
            try:
                inj.run(lambda: fn(arg))
            except Stop:
                res.fault('call_interrupted')
            except Exception:
                pass
        keep = bytes(arg) if isinstance(arg, bytearray) else None
        out = fn(arg)
        if keep is not None and bytes(arg) != keep:
            res.fail('the call changed its argument', net=net,
                     data=keep.hex()[:400])
        if is_text:
            if hexed:
                if not isinstance(out, str):
                    res.fail('not text', got=repr(out)[:100])
                b = bytes.fromhex(out)
                if b.hex() != out:
                    res.fail('hex not in canonical form', got=out[:200])
                return b
            if not isinstance(out, (bytes, bytearray)):
                res.fail('not bytes', got=repr(out)[:100])
            b = bytes(out)
            if 'scribble' in h and isinstance(out, bytearray) and out:
                out[h['scribble'] % len(out)] ^= 0x55
                res.fault('returned_buffer_scribbled')
                if h['scribble'] % 3 == 0:
                    out.clear()
            return b
        if not isinstance(out, str):
            res.fail('not text', got=repr(out)[:100])
        return out

    def sweep(net, data, h):
        'every message one change away'
        lib.select(net)
        kind, a, v = h['sweep']
        is_text = isinstance(data, str)
        if is_text:
            fn = S.hex_serialize if h['hexed'] else S.serialize
        else:
            fn = (lambda b: S.hex_deserialize(b.hex())) if h['hexed'] \
                else S.deserialize
            data = data[:400]
        if is_text and kind in ('value', 'drop', 'twice', 'cuts'):
            data = ' '.join(data[:600].split())
        n = 0
        for d in sorted(set(variants(kind, data, a, v))):
            n += 1
            try:
                ops = (read_text if is_text else read_bytes)(net, d)
                want = bytes_of(ops) if is_text else text_of(net, ops)
            except Refused:
                want = None
            except Open:
                continue
            try:
                got, err = fn(d), None
                if is_text:
                    got = bytes.fromhex(got) if isinstance(got, str) \
                        else bytes(got)
            except Exception as e:
                got, err = None, lib.exc(e, True)
            if got != want:
                res.fail('broken script accepted' if want is None else
                         'script refused' if err else
                         'script altered on the way', net=net,
                         data=d[:600] if is_text else d.hex()[:600],
                         error=err, got=repr(got)[:600],
                         want=repr(want)[:600], after='sweep of ' + kind)
                return
        res.real_calls += n
        res.fault('message_sweep_' + kind, n)

    def step(i, h):
        nonlocal refused, arrived
        m, s = msgs[i], st[i]
        if s['dead']:
            return
        net = m['net']
        dmg = None
        if 'dmg' in h:
            d = hurt(h['dmg'], s['data'])
            if d != s['data']:
                dmg = h['dmg']['how']
                harmless = isinstance(d, str) and (
                    dmg == 'space' or dmg == 'case' and h['dmg']['v'] % 4)
                if not harmless:
                    s['clean'] = False
                s['data'] = d
                res.fault('message_' + dmg)
        if h.get('wrong') and h['wrong'] != net:
            net = h['wrong']
            s['clean'] = False
            res.fault('wrong_network')
        data = s['data']
        is_text = isinstance(data, str)
        if h.get('sweep'):
            sweep(net, data, h)
            if res.violations:
                return
        try:
            ops = (read_text if is_text else read_bytes)(net, data)
            want = 'ok'
        except Refused as e:
            ops, want = None, 'refuse: %s' % e
        except Open:
            ops, want = None, 'open'
        show = data[:600] if is_text else data.hex()[:600]
        for _ in range(2 if h.get('again') else 1):
            try:
                got = convert(net, data, h['hexed'], h['kind'], h)
                err = None
            except Exception as e:
                got, err = None, lib.exc(e, True)
                if not trace.from_lib(e) and not isinstance(
                        e, (ValueError, TypeError, IndexError)):
                    res.fail('unexpected failure', net=net, error=err)
            res.ev('conv', i, net, is_text, want[:6], err or
                   (got if isinstance(got, str) else got.hex())[:200])
            if want == 'ok' and err:
                res.fail('script refused', net=net, data=show, error=err)
            elif want[:6] == 'refuse' and not err:
                res.fail('broken script accepted', net=net, data=show,
                         why=want, got=(got if isinstance(got, str)
                                        else got.hex())[:600])
            elif want == 'ok':
                # pushes over 1000 bytes come from foreign bytes only
                right = bytes_of(ops) if is_text else text_of(net, ops)
                if got != right:
                    res.fail('script altered on the way', net=net,
                             data=show, got=(got if isinstance(got, str)
                                             else got.hex())[:600],
                             want=(right if isinstance(right, str)
                                   else right.hex())[:600])
        res.state(model.fam_of(net) == 'dcr', is_text, dmg, want[:20],
                  None if not ops else tuple(
                      len(o) if isinstance(o, bytes) else o for o in
                      ops[-2:]))
        if want != 'ok':
            s['dead'] = True
            refused += want != 'open'
            return
        s['data'] = got
        s['hop'] += 1
        if s['clean'] and s['ops'] is not None:
            if ops != s['ops']:
                res.fail('undamaged script arrived altered', net=net,
                         data=show)
            arrived += 1

    pos = [0] * len(msgs)
    for i in sc['order']:
        if i >= len(msgs) or pos[i] >= len(msgs[i]['hops']):
            continue
        h = msgs[i]['hops'][pos[i]]
        pos[i] += 1
        res.simtime += 1
        step(i, h)
        if res.violations:
            return
    # faults over: every message is sent again and arrives
    for i, m in enumerate(msgs):
        if st[i]['ops'] is None:
            continue
        s0 = m['start']
        st[i].update(data=s0['text'] if 'text' in s0
                     else bytes.fromhex(s0['raw']), clean=True, dead=False)
        for hexed in (False, True):
            if st[i]['dead']:       # (push over 1000 bytes: open)
                break
            step(i, dict(hexed=hexed, kind='bytes'))
            if res.violations:
                return
    res.nontrivial = bool(refused and arrived)
