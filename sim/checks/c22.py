'''C22: numbers survive streams.

A sender writes numbers into a stream: number prefixes (VarInt) in every
width, and numbers in little and big endian, shortest or padded, signed for
scripts, each behind a VarInt of its length. The link cuts the stream into
fragments anywhere, flips bytes, loses the connection; the receiver reads from
the front of what has arrived, waits for more where a number is incomplete,
acknowledges what it stored, crashes and asks for the rest; what is read is
written on to the next node. Nodes of one process are on different networks
(Overwinter and Sapling take no long forms), calls are interrupted, numbers
that do not fit are tried in between. Oracle: arithmetic. Every number
arrives, once, in order, as itself; whatever is incomplete or refused by the
format raises; writing gives exactly the bytes documented.
'''
from sim import gen, lib, trace

ID = 'C22'
RUNS = dict(quick=5000, thorough=600000)
COMPONENTS = dict(real=['riemann.utils integer helpers',
                        'riemann.tx.shared.VarInt'],
                  stub=['streams', 'receivers and their storage'])
NONTRIVIAL = 'a number was incomplete, damaged or in a long form'
STATES = 'digest of (encoding, width, bytes of the number, network strict, ' \
    'how it arrived)'
EDGE = sorted({max(0, v + d) for b in range(0, 73)
               for v in (1 << b,) for d in (-1, 0, 1)} | {
    0xfb, 0xfc, 0xfd, 0xfe, 0x100, 0xfffe, 0x7f, 0x80})
STRICT = [n for n in gen.NET_NAMES if 'overwinter' in n or 'sapling' in n]


class Stop(BaseException):
    pass


# ------------------------------------------------------------------ oracle

def shortest(n):
    return max(1, (n.bit_length() + 7) // 8)


def pack(n, length, order):
    'bytes, most significant first, or None'
    if n < 0 or n >= 256 ** length:
        return None
    b = bytes((n >> (8 * (length - 1 - i))) & 255 for i in range(length))
    return b if order == 'be' else b[::-1]


def unpack(b, order, signed):
    v = 0
    for x in (b if order == 'be' else reversed(b)):
        v = v * 256 + x
    top = b[:1] if order == 'be' else b[-1:]
    if signed and top and top[0] & 128:
        v -= 256 ** len(b)
    return v


def script_num(n):
    'two\'s complement, as few bytes as hold the sign'
    if n == 0:
        return b'\0'
    k = 1
    while not -(1 << (8 * k - 1)) <= n < 1 << (8 * k - 1):
        k += 1
    return pack(n % 256 ** k, k, 'le')


def varint(n, width=None):
    'the form of that width (None: shortest); None: it does not fit'
    if not 0 <= n < 2 ** 64:
        return None
    if width is None:
        width = 1 if n < 0xfd else 3 if n < 1 << 16 else \
            5 if n < 1 << 32 else 9
    if width == 1:
        return bytes([n])
    b = pack(n, width - 1, 'le')
    return b if b is None else bytes([{3: 253, 5: 254, 9: 255}[width]]) + b


def front(net, buf):
    '(number, bytes) at the front, "more" or "refuse"'
    if not buf:
        return 'more'
    k = {253: 3, 254: 5, 255: 9}.get(buf[0], 1)
    if len(buf) < k:
        return 'more'
    n = unpack(buf[1:k], 'le', False) if k > 1 else buf[0]
    if k > 1 and len(varint(n)) < k and net in STRICT:
        return 'refuse'
    return n, buf[:k]


# -------------------------------------------------------------- generation

def number(rng, bits=72):
    k = rng.random()
    if bits > 72 and k < .4:
        # near the top of some number of bytes
        b = min(bits, 8 * rng.choice([9, 15, 16, 17, 31, 32, 33, 63, 64, 65,
                                      127, 128, 129, 255, 256, 257, 511, 512,
                                      513, 519, 520])
                + rng.choice([-1, 0, 0, 1]))
        return rng.choice([1 << b - 1, (1 << b) - 1, (1 << b - 1)
                           + rng.getrandbits(b - 1)])
    if k < .5:
        return rng.choice([e for e in EDGE if e.bit_length() <= bits])
    if k < .9:
        return rng.getrandbits(rng.randint(1, bits))
    return rng.randrange(300)


def gen_(rng, tier):
    nets = [rng.choice(['bitcoin_main', rng.choice(gen.NET_NAMES)]),
            rng.choice(['bitcoin_main', rng.choice(STRICT)]),
            rng.choice(gen.NET_NAMES)]
    frames = []
    for _ in range(rng.randint(2, 8)):
        k = rng.pick([(6, 'var'), (1, 'le'), (1, 'be'), (1, 'lep'),
                      (1, 'bep'), (1.5, 'script')])
        f = dict(k=k)
        if k == 'var':
            f['n'] = number(rng, 64)
            f['w'] = rng.pick([(5, None), (1, 3), (1, 5), (1, 9)])
            if f['w'] and varint(f['n'], f['w']) is None:
                f['w'] = None
        else:
            f['n'] = number(rng, rng.choice([16, 72, 72, 264, 1024, 4159]))
            if k == 'script' and rng.chance(.4):
                f['n'] = -f['n'] or -1
            f['w'] = shortest(abs(f['n'])) + rng.choice([0, 0, 1, 3, 8])
        if rng.chance(.25):
            f['odd'] = [rng.randrange(9), number(rng), rng.randrange(1, 12)]
        if rng.chance(.12):
            f['int'] = rng.random()
        frames.append(f)
    faults = []
    for _ in range(rng.randint(0, 4)):
        faults.append([rng.choice(['flip', 'drop', 'crash', 'net']),
                       rng.random(), rng.randrange(1, 256)])
    return dict(nets=nets, frames=frames, faults=faults,
                cuts=[rng.pick([(3, rng.randint(1, 3)),
                                (1, rng.randint(1, 12)), (.3, 60)])
                      for _ in range(12)],
                wrap=[rng.randrange(3) for _ in range(6)])


# -------------------------------------------------------------- execution

def execute(sc, res):
    u = lib.riemann.utils
    V = lib.riemann.tx.shared.VarInt
    cur = ['']

    def select(i):
        cur[0] = sc['nets'][i % len(sc['nets'])]
        lib.select(cur[0])

    def call(fn, *a, **k):
        res.real_calls += 1
        try:
            return fn(*a, **k), None
        except Exception as e:
            return None, lib.exc(e, True)

    def wrong(cls, **k):
        res.fail(cls, net=cur[0], **k)

    def writes(name, fn, a, k, want, n, plain=bytes):
        'one number written: exactly these bytes, or a refusal (None)'
        v, err = call(fn, *a, **k)
        if err is None and plain is not None:
            if type(v) is not plain:
                wrong('unexpected type', call=name, n=n, got=lib.canon(v))
                return
            v = bytes.fromhex(v) if plain is str else v
        elif err is None:
            if v.number != n or len(v) != len(want or b''):
                wrong('wrong number written', call=name, n=n, args=k,
                      got=repr(v.number), length=len(v))
                return
            v = bytes(v.to_bytes())
        if want is None and err is None:
            wrong('wrote a number that does not fit', call=name, n=n, args=k,
                  at=a[1:], got=v.hex())
        elif want is not None and (err or v != want):
            wrong('wrong encoding' if not err else 'refused a number',
                  call=name, n=n, args=k, at=a[1:], want=want.hex(),
                  got=err or v.hex())

    def payload(f):
        n, k = f['n'], f['k']
        if k == 'script':
            w = script_num(n)
            writes('i2le_script', u.i2le_script, [n], {}, w, n, str)
        elif k in ('le', 'be'):
            w = pack(n, shortest(n), k)
            writes('i2' + k, getattr(u, 'i2' + k), [n], {}, w, n)
        else:
            w = pack(n, f['w'], k[:2])
            writes('i2' + k[:2] + '_padded',
                   getattr(u, 'i2' + k[:2] + '_padded'), [n, f['w']], {}, w,
                   n)
        return w

    def prefix(n, w):
        'a VarInt of the library, judged'
        writes('VarInt', V, [n], {} if w is None else dict(length=w),
               varint(n, w), n, None)
        return varint(n, w)

    def odd(how, n, w):
        'what does not fit is refused'
        if how == 0:
            writes('VarInt', V, [-n - 1], {}, None, n)
        elif how == 1:
            writes('VarInt', V, [n + 2 ** 64], {}, None, n)
        elif how in (2, 3):
            o = 'le' if how == 2 else 'be'
            fn = getattr(u, 'i2' + o + '_padded')
            writes(fn.__name__, fn, [n, w], {}, pack(n, w, o), n)
            writes(fn.__name__, fn, [-n - 1, w], {}, None, n)
        elif how in (4, 5):
            o = 'le' if how == 4 else 'be'
            fn = getattr(u, 'i2' + o)
            writes(fn.__name__, fn, [-n - 1], {}, None, n)
        elif how == 6:
            b = pack(n, shortest(n) + w % 3, 'be')
            v, err = call(u.change_endianness, b)
            if err or v != b[::-1]:
                wrong('wrong byte order', b=b.hex(), got=err or lib.canon(v))
        elif how == 7:
            # nothing there is zero
            for fn in (u.le2i, u.be2i):
                v, err = call(fn, b'')
                if err or v != 0:
                    wrong('wrong number read', call=fn.__name__, b='',
                          got=err or repr(v))
        else:
            # a width it does not fit in: refused, or a right longer form
            v, err = call(V, n % 2 ** 64, length=[3, 5][w % 2])
            if not err and front('', bytes(v.to_bytes())) != (
                    n % 2 ** 64, bytes(v.to_bytes())):
                wrong('wrong encoding', call='VarInt', n=n % 2 ** 64,
                      args=dict(length=[3, 5][w % 2]),
                      got=bytes(v.to_bytes()).hex())

    def reads(b):
        'a payload, read in every way'
        for o, fn in (('le', u.le2i), ('be', u.be2i)):
            for signed in (False, True):
                v, err = call(fn, b, signed=signed) if signed else call(fn, b)
                if err or v != unpack(b, o, signed):
                    wrong('wrong number read', call=fn.__name__, b=b.hex(),
                          signed=signed, got=err or repr(v))

    # the sender writes
    select(0)
    stream, ends = b'', []
    for f in sc['frames']:
        if 'int' in f:
            def act():
                raise Stop()
            inj = trace.Injector(int(f['int'] * 40), act, 'line',
                                 skip_critical=True)
            try:
                inj.run(lambda: V.from_bytes(
                    varint(f['n'] % 2 ** 64)) and V(f['n'] % 2 ** 64))
            except Stop:
                res.fault('call_interrupted')
            except Exception:
                pass
        if 'odd' in f:
            odd(*f['odd'])
        if f['k'] == 'var':
            stream += prefix(f['n'], f['w']) or b''
        else:
            p = payload(f)
            if p is None:
                return
            stream += (prefix(len(p), None) or b'') + p
        ends.append(len(stream))
        if res.violations:
            return
    # receivers, one after the other
    for hop in range(1, 3):
        got, acked, sent, buf = [], 0, 0, b''
        faults = list(sc['faults']) if hop == 1 else []
        at = [int(x[1] * (2 * len(stream) + 1)) for x in faults]
        total = step = 0
        net = hop
        clean = True
        while len(got) < len(ends):
            step += 1
            if step > 20 * len(stream) + 200:
                wrong('no progress', stream=stream.hex()[:400])
                return
            select(net)
            if clean and sent >= len(stream) and not buf and \
                    acked < len(stream):
                wrong('lost', stream=stream.hex()[:400])
                return
            k = sc['cuts'][step % len(sc['cuts'])] if sc['cuts'] else 5
            part = stream[sent:sent + max(1, k)]
            sent += len(part)
            total += len(part)
            res.simtime += 1
            for i, (kind, _, v) in enumerate(faults):
                if at[i] < 0 or total <= at[i]:
                    continue
                at[i] = -1
                if kind == 'flip' and part:
                    j = v % len(part)
                    part = part[:j] + bytes([part[j] ^ v]) + part[j + 1:]
                    res.fault('byte_flipped')
                    clean = False
                elif kind == 'drop':
                    part = part[:v % (len(part) + 1)]
                    res.fault('connection_lost')
                    clean = False
                elif kind == 'crash':
                    res.fault('crash_restart')
                    buf, part = b'', b''
                    clean = False
                elif kind == 'net':
                    net = v
                    select(net)
                    res.fault('network_switched')
            buf += part
            # read what is complete
            while buf:
                w = front(cur[0], buf)
                wrap = sc['wrap'][step % len(sc['wrap'])] if sc['wrap'] \
                    else 0
                arg = bytearray(buf) if wrap == 1 else buf
                v, err = call(V.from_bytes, arg)
                how = w if isinstance(w, str) else 'ok'
                res.state('var', len(w[1]) if how == 'ok' else 0, buf[0] > 252,
                          cur[0] in STRICT, how, clean)
                if isinstance(w, str):
                    if err is None:
                        wrong('read a number that is not there'
                              if w == 'more' else 'took a long form',
                              stream=buf.hex()[:60], got=repr(v.number))
                        return
                    res.probe('incomplete' if w == 'more' else 'long_form')
                    break
                n, raw = w
                if err or v.number != n or bytes(v.to_bytes()) != raw \
                        or len(v) != len(raw) or type(v.number) is not int:
                    wrong('wrong number read', call='VarInt.from_bytes',
                          stream=buf.hex()[:60], want=[n, raw.hex()],
                          got=err or [repr(v.number),
                                      bytes(v.to_bytes()).hex()])
                    return
                c, err = call(v.copy)
                if err or c.number != n or bytes(c.to_bytes()) != raw:
                    wrong('copy differs', of=raw.hex(),
                          got=err or bytes(c.to_bytes()).hex())
                    return
                f = sc['frames'][len(got)]
                if f['k'] == 'var':
                    item, size = raw, len(raw)
                else:
                    if len(buf) < len(raw) + n:
                        w = 'more'
                        break
                    item = buf[len(raw):len(raw) + n]
                    size = len(raw) + n
                    reads(item)
                    if res.violations:
                        return
                res.ev('read', hop, len(got), item.hex()[:80])
                buf = buf[size:]
                # the checksum of the protocol: what the sender sent
                good = stream[ends[len(got) - 1] if got else 0:
                              ends[len(got)]]
                if raw + (item if f['k'] != 'var' else b'') != good:
                    res.probe('damaged_frame')
                    buf = b''
                    w = 'resend'
                    break
                if f['k'] != 'var':
                    o = 'be' if f['k'][0] == 'b' else 'le'
                    fn = u.be2i if o == 'be' else u.le2i
                    x, err = call(fn, item, f['k'] == 'script')
                    if err or x != f['n']:
                        wrong('number changed on the way', sent=f['n'],
                              how=f['k'], got=err or repr(x))
                        return
                elif n != f['n']:
                    raise AssertionError('oracle')
                got.append(item)
                acked = ends[len(got) - 1]
                if len(got) == len(ends):
                    break
            else:
                w = 'more'
            if len(got) == len(ends):
                break
            if w == 'refuse' and clean:
                # a long form meant for another chain: it stays refused there
                again, err = call(V.from_bytes, buf)
                if err is None:
                    wrong('took a long form', stream=buf.hex()[:60])
                    return
                net = 0
                select(0)
                if cur[0] in STRICT:
                    break
                continue
            if w in ('refuse', 'resend') or (sent >= len(stream)
                                             and w == 'more'):
                # connection opened again: the rest is sent once more
                if all(a < 0 for a in at) or total > 4 * len(stream):
                    clean = True
                    net = 0 if cur[0] in STRICT else net
                sent, buf = acked, b''
        else:
            w = None
        if w == 'refuse':
            break
        # written on, to the next node
        select(hop)
        for f in sc['frames']:
            if f['k'] == 'var':
                prefix(f['n'], f['w'])
            else:
                payload(f)
            res.state(f['k'], f['w'], f['n'].bit_length(), cur[0] in STRICT)
            if res.violations:
                return
    res.nontrivial = bool(res.faults) or any(
        f['k'] == 'var' and f['w'] for f in sc['frames'])
