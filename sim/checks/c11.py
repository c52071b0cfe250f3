'''C11: streaming BLAKE hashing depends only on the bytes fed.

Several hashers (224 to 512 bits, some with salt) are fed streams in chunks
cut near and away from block boundaries, as bytes, bytearrays and text, with
empty chunks and chunks passed to the final call. The simulator interleaves
the hashers call by call or, in threads, at any line or bytecode of the
library; it interrupts, fails and abandons some of them in the middle of an
update, hands refused arguments to others, and makes restarted feeders feed the
stored stream again cut differently. Oracle: an independent BLAKE over the
whole stream.
'''
from sim import gen, lib, model, trace
from sim.gen import rb

ID = 'C11'
RUNS = dict(quick=4000, thorough=400000)
COMPONENTS = dict(real=['riemann.blake256, riemann.utils hashing'],
                  stub=['feeders', 'thread scheduler'])
NONTRIVIAL = 'a stream was fed in several chunks next to another hasher'
STATES = 'digest of (bits, salted, chunk lengths mod block size, how final)'
NEAR = [0, 1, 2, 7, 8, 9, 47, 48, 54, 55, 56, 57, 62, 63, 64, 65, 66, 110,
        111, 112, 113, 119, 120, 126, 127, 128, 129, 130, 191, 192, 193, 255,
        256, 257]


def chunk(rng):
    n = rng.choice(NEAR) if rng.chance(.6) else rng.randint(0, 140)
    k = rng.pick([(5, 'h'), (4, 'ba'), (1.5, 's')])
    if k == 's':
        alpha = rng.choice(['abc', 'aé€', '\U0001f600x', '\0\x80'])
        return {'s': ''.join(rng.choice(alpha) for _ in range(n))}
    if rng.chance(.1):
        return {k: '00' * n}
    return {k: rb(rng, n).hex()}


def gen_(rng, tier):
    nh = rng.pick([(1, 1), (4, 2), (3, 3), (1, 5)])
    hs = []
    for _ in range(nh):
        bits = rng.choice([224, 256, 256, 384, 512])
        salt = None
        if rng.chance(.3):
            salt = rb(rng, rng.choice([0, 1, 4, 15, 16, 17, 31, 32, 33, 40]))
            salt = salt.hex()
        hs.append(dict(bits=bits, salt=salt))
    if rng.chance(.25):     # twins: same kind of hasher, same data
        hs.append(dict(hs[0]))
    steps = []
    for _ in range(rng.randint(2, 6) * len(hs)):
        k = rng.pick([(10, 'up'), (1.2, 'final'), (.8, 'bad'), (.8, 'int'),
                      (.5, 'redo'), (.7, 'once')])
        st = dict(do=k, h=rng.randrange(len(hs)))
        if k in ('up', 'int', 'once'):
            st['d'] = chunk(rng)
        if k == 'int':
            st['at'] = rng.random()
            st['how'] = rng.choice(['interrupt', 'alloc'])
        if k == 'bad':
            st['arg'] = rng.randrange(4)
        if k in ('final', 'redo'):
            st['way'] = rng.choice(['final', 'digest', 'hexdigest'])
            if rng.chance(.4):
                st['d'] = chunk(rng)
        if k == 'redo':
            st['cuts'] = [rng.random() for _ in range(rng.randint(0, 5))]
        if k == 'once':
            st['fn'] = rng.choice(['blake_hash', 'blake256', 'hash256',
                                   'hash160'])
        steps.append(st)
    sc = dict(hs=hs, steps=steps)
    if rng.chance(.3):
        sc['threads'] = rng.randint(2, 3)
        sc['mode'] = rng.choice(['line', 'line', 'opcode'])
        hi = rng.choice([3, 30, 300, 2000])
        sc['plan'] = [[rng.randrange(sc['threads']), rng.randint(1, hi)]
                      for _ in range(rng.choice([5, 20, 100]))]
        del sc['steps'][14:]
    return sc


class Failed(BaseException):
    pass


def raw_of(d):
    if 's' in d:
        return d['s'].encode()
    return bytes.fromhex(d.get('h') or d.get('ba') or '')


def arg_of(d):
    if 's' in d:
        return d['s']
    return bytearray.fromhex(d['ba']) if 'ba' in d else bytes.fromhex(d['h'])


class Raised(Exception):
    'the library refused what it must take'
    from_lib = True


def call(fn, *a):
    try:
        return fn(*a)
    except Exception as e:
        raise Raised(lib.exc(e, True)) from e


class Feeder:
    'one hasher of the library and the stream fed to it so far'

    def __init__(self, spec):
        self.spec = spec
        self.new()

    def new(self):
        self.o = call(lib.riemann.blake256.BLAKE, self.spec['bits'])
        if self.spec['salt'] is not None:
            call(self.o.addsalt, bytes.fromhex(self.spec['salt']))
        self.fed = []
        self.out = None
        self.dead = False

    def stream(self):
        return b''.join(raw_of(d) for d in self.fed)

    def want(self):
        s = self.spec['salt']
        return model.blake(self.spec['bits'], self.stream(),
                           bytes.fromhex(s or ''))


def give(fn, st, faults):
    'feed a chunk; a feeder may use its buffer again at once'
    a = arg_of(st['d'])
    v = call(fn, a)
    if isinstance(a, bytearray):
        if bytes(a) != raw_of(st['d']):
            raise Raised(['buffer of the feeder changed'])
        for i in range(len(a)):
            a[i] ^= 0xa5
        if st.get('h', 0) % 2:
            a.clear()
        faults['buffer_reused'] = faults.get('buffer_reused', 0) + 1
    return v


def finish(f, st, fails, where):
    'digest of a feeder, judged'
    d = st.get('d')
    if f.out is None and d:
        v = give(getattr(f.o, st['way']), st, {})
        f.fed.append(d)
    else:
        v = call(getattr(f.o, st['way']))
    if isinstance(v, str):
        v = bytes.fromhex(v)
    if f.out is None:
        f.out = f.want()
    if v != f.out or type(v) is not bytes:
        fails.append(dict(
            cls='wrong digest', bits=f.spec['bits'], salt=f.spec['salt'],
            chunks=[len(raw_of(x)) for x in f.fed], where=where,
            got=lib.canon(v), want=f.out.hex()))


def play(steps, fs, fails, log, faults):
    try:
        _play(steps, fs, fails, log, faults)
    except Raised as e:
        fails.append(dict(cls='refused', error=e.args[0], at=log[-1:]))


def _play(steps, fs, fails, log, faults):
    for s, st in steps:
        if st['h'] >= len(fs):
            continue
        f, do = fs[st['h']], st['do']
        if f is None:
            continue
        log.append([s, do, st['h']])
        if do == 'once':
            data = raw_of(st['d'])
            if st['fn'] == 'blake_hash':
                got, want = call(lib.riemann.blake256.blake_hash,
                                 arg_of(st['d'])), \
                    model.blake(256, data)
            elif st['fn'] == 'blake256':
                got, want = call(lib.riemann.utils.blake256, arg_of(st['d'])), \
                    model.blake(256, data)
            elif st['fn'] == 'hash256':
                got, want = call(lib.riemann.utils.hash256, data), \
                    model.hash256(data, 'decred_main')
            else:
                got, want = call(lib.riemann.utils.hash160, data), \
                    model.hash160(data, 'decred_main')
            if bytes(got) != want:
                fails.append(dict(cls='wrong one-shot digest', fn=st['fn'],
                                  data=data.hex(), got=lib.canon(got),
                                  want=want.hex()))
            continue
        if do == 'redo':
            if f.dead:
                continue
            # another feeder, restarted, feeds what was stored
            g = Feeder(f.spec)
            data = f.stream()
            cuts = sorted(int(c * len(data)) for c in st['cuts'])
            for a, b in zip([0] + cuts, cuts + [len(data)]):
                d = {'h': data[a:b].hex()}
                call(g.o.update, arg_of(d))
                g.fed.append(d)
            finish(g, st, fails, 'redo')
            faults['feeder_restarted'] = faults.get('feeder_restarted', 0) + 1
            continue
        if f.dead:
            f.new()
        if f.out is not None and do != 'final':
            f.new()
        if do == 'up':
            give(f.o.update, st, faults)
            f.fed.append(st['d'])
        elif do == 'final':
            finish(f, st, fails, s)
        elif do == 'bad':
            a = [None, 5, 3.5, object()][st['arg']]
            try:
                f.o.update(a)
                fails.append(dict(cls='took what is no data', arg=str(a)))
            except Exception:
                faults['refused_chunk'] = faults.get('refused_chunk', 0) + 1
        elif do == 'int':
            if 'threads' in st:     # no second tracer inside a thread
                continue
            k = int(3 ** (st['at'] * 7)) - 1

            def act():
                raise MemoryError() if st['how'] == 'alloc' else Failed()
            inj = trace.Injector(k, act, skip_critical=True)
            try:
                inj.run(lambda: f.o.update(arg_of(st['d'])))
                f.fed.append(st['d'])
            except Exception as e:
                if st['how'] != 'alloc' or inj.fired is None:
                    raise Raised(lib.exc(e, True)) from e
                f.dead = True
                faults['alloc_in_update'] = faults.get(
                    'alloc_in_update', 0) + 1
            except Failed:
                f.dead = True       # this one is not used any more
                faults[st['how'] + '_in_update'] = faults.get(
                    st['how'] + '_in_update', 0) + 1
    for i, f in enumerate(fs):
        if f is not None and not f.dead and not fails:
            finish(f, dict(way='digest'), fails, 'end')
            finish(f, dict(way='hexdigest'), fails, 'again')


def execute(sc, res):
    lib.select('decred_main')
    fs = [Feeder(h) for h in sc['hs']]
    steps = list(enumerate(sc['steps']))
    fails, log, faults = [], [], {}
    if 'threads' in sc:
        n = sc['threads']
        logs = [[] for _ in range(n)]

        def body(t):
            mine = [f if i % n == t else None for i, f in enumerate(fs)]
            play([(s, dict(st, threads=1)) for s, st in steps], mine, fails,
                 logs[t], faults)
        s = trace.Scheduler([lambda t=t: body(t) for t in range(n)],
                            sc['plan'], sc['mode'])
        out = s.run()
        for o in out:
            if o is not None:
                raise AssertionError(o)
        res.fault('preemption_at_' + sc['mode'], s.preempted)
        log = logs + [s.switches[:300]]
    else:
        play(steps, fs, fails, log, faults)
    for k, v in faults.items():
        res.fault(k, v)
    for x in fails:
        res.fail(x.pop('cls'), **x)
    for f in fs:
        ch = [len(raw_of(d)) for d in f.fed]
        bs = 64 if f.spec['bits'] <= 256 else 128
        res.state(f.spec['bits'], f.spec['salt'] is not None,
                  [c % bs for c in ch])
        res.log.append([f.spec['bits'], ch, f.out and f.out.hex()])
        res.real_calls += len(ch) + 1
    res.events += len(steps)
    res.log.append(log)
    res.nontrivial = len(fs) > 1 and any(len(f.fed) > 1 for f in fs)
