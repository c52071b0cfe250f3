'''C17: digests that parties exchange are those of the specification.

Parties commit to data with the hash helpers and check each other's digests:
one sends data and digest over a link that flips, cuts, loses and repeats,
the other computes the digest of what arrived. Their process changes networks
in between (Decred hashes otherwise than the rest), the hash backend fails,
calls are interrupted, buffers handed in are used again, and in some runs the
parties are threads preempted at any line or bytecode of the library.
Oracle: BLAKE-256 of the model, hashlib as it was before any fault, and the
table of which helper is what on which network. No call returns anything
else, a failing backend is reported, and later calls are right.
'''
from sim import core, gen, lib, model, trace
from sim.gen import rb

ID = 'C17'
RUNS = dict(quick=2500, thorough=300000)
COMPONENTS = dict(real=['riemann.utils hash helpers', 'riemann.blake256'],
                  stub=['hashlib behind the hash seam', 'parties',
                        'thread scheduler'])
NONTRIVIAL = 'digests were made on several networks, or under a fault'
STATES = 'digest of (helper, kind of argument, length, Decred or not, fault)'
LENS = [0, 1, 2, 8, 20, 31, 32, 33, 54, 55, 56, 57, 63, 64, 65, 80, 110, 111,
        112, 119, 120, 127, 128, 129, 191, 192, 255, 256, 257, 520]
HELPERS = ['sha256', 'rmd160', 'hash160', 'hash160', 'hash256', 'hash256',
           'blake256', 'blake2b', 'blake2s']


def want(fn, net, data, kw):
    if fn in ('hash160', 'hash256'):
        return getattr(model, fn)(data, net)
    if fn == 'blake256':
        return model.blake(256, data)
    if fn in ('blake2b', 'blake2s'):
        k = {a: bytes.fromhex(v) if isinstance(v, str) else v
             for a, v in kw.items()}
        return (model._blake2b if fn == 'blake2b' else model._blake2s)(
            data, **k).digest()
    return getattr(model, fn)(data)


def kwargs(rng, fn):
    big = fn == 'blake2b'
    kw = {}
    if rng.chance(.7):
        kw['digest_size'] = rng.choice([1, 20, 28, 32, 32] + [64] * big)
    if rng.chance(.5):
        kw['person'] = rb(rng, rng.choice([0, 7, 8] + [15, 16] * big)).hex()
    if rng.chance(.3):
        kw['key'] = rb(rng, rng.choice([0, 1, 31, 32] + [64] * big)).hex()
    if rng.chance(.3):
        kw['salt'] = rb(rng, rng.choice([0, 1, 8] + [16] * big)).hex()
    if rng.chance(.1):
        kw['last_node'] = True
    return kw


def gen_(rng, tier):
    nets = [rng.choice(['decred_main', 'decred_test', 'decred_simnet']),
            rng.choice(gen.NET_NAMES), 'bitcoin_main',
            rng.choice(gen.NET_NAMES)]
    nets = [n for n in nets if n in gen.NETS]
    steps = []
    pool = [rb(rng, rng.choice(LENS) if rng.chance(.7) else
               rng.randrange(300)).hex() for _ in range(3)]
    for _ in range(rng.randint(3, 8)):
        fn = rng.choice(HELPERS)
        st = dict(fn=fn, net=rng.randrange(len(nets)),
                  d=rng.choice(pool),
                  arg=rng.pick([(4, 'bytes'), (1, 'bytearray'),
                                (.7, 'view')]),
                  to=rng.randrange(len(nets)))
        if fn in ('blake2b', 'blake2s'):
            st['kw'] = kwargs(rng, fn)
        k = rng.pick([(5, None), (1, 'flip'), (.7, 'cut'), (.5, 'lost'),
                      (.5, 'twice'), (.7, 'fail'), (.7, 'int'),
                      (.3, 'noarg')])
        if k:
            st['x'] = k
            st['at'] = rng.random()
            st['v'] = rng.randrange(1, 256)
        steps.append(st)
    sc = dict(nets=nets, steps=steps)
    if rng.chance(.3):
        del steps[3:]
        for st in steps:
            st['to'] = st['net'] = steps[0]['net']
            if st.get('x') in ('fail', 'int'):
                del st['x']
        sc['threads'] = rng.randint(2, 3)
        sc['mode'] = rng.choice(['line', 'opcode'])
        hi = rng.choice([2, 5, 30, 300, 2000])
        sc['plan'] = [[rng.randrange(sc['threads']), rng.randint(1, hi)]
                      for _ in range(rng.choice([5, 20, 100]))]
    return sc


class Stop(BaseException):
    pass


class Backend(Exception):
    'what a failing hash backend raises'


class Refused(Exception):
    from_lib = True


def digest(st, data, fails, net, where):
    'one digest by the library, judged'
    fn, kw = st['fn'], st.get('kw', {})
    k = {a: bytes.fromhex(v) if isinstance(v, str) else v
         for a, v in kw.items()}
    arg = {'bytes': lambda b: b, 'bytearray': bytearray,
           'view': memoryview}[st['arg']](data)
    if fn in ('hash160', 'hash256', 'blake256') and st['arg'] == 'view':
        arg = data
    f = getattr(lib.riemann.utils, fn)
    try:
        v = f(arg, **k)
    except (Backend, MemoryError, Stop):
        raise
    except Exception as e:
        if st['arg'] != 'bytes':
            # only bytes are promised to be taken
            return digest(dict(st, arg='bytes'), data, fails, net, where)
        fails.append(dict(cls='refused data', fn=fn, net=net, where=where,
                          data=data.hex(), error=lib.exc(e, True)))
        raise Refused() from e
    if bytes(arg) != data:
        fails.append(dict(cls='argument changed', fn=fn, data=data.hex()))
    if isinstance(arg, bytearray):
        # the buffer is used again
        for i in range(len(arg)):
            arg[i] ^= 0x5a
    w = want(fn, net, data, kw)
    if type(v) is not bytes or v != w:
        fails.append(dict(cls='wrong digest', fn=fn, net=net, where=where,
                          kw=kw, data=data.hex(), got=lib.canon(v),
                          want=w.hex()))
    return v


def play(sc, steps, fails, log, faults, threads=False):
    def fault(x):
        faults[x] = faults.get(x, 0) + 1

    def select(i):
        n = sc['nets'][i]
        if not threads:
            lib.select(n)
        return n
    for s, st in steps:
        if fails:
            return
        data = bytes.fromhex(st['d'])
        net = select(st['net'])
        x = st.get('x')
        log.append([s, st['fn'], net, x])
        f = getattr(lib.riemann.utils, st['fn'])
        if x == 'fail' and not threads:
            make = (lambda n: MemoryError()) if st['v'] % 2 else Backend
            lib.HashFault.arm(int(st['at'] * 5), make)
            try:
                digest(st, data, fails, net, 'failing backend')
            except (Backend, MemoryError):
                pass
            finally:
                fired = lib.HashFault.fired
                lib.HashFault.disarm()
                if fired:
                    fault('hash_backend_failed')
        elif x == 'int' and not threads:
            def act():
                raise MemoryError() if st['v'] % 2 else Stop()
            hi = 8 if st['fn'] not in ('blake256', 'hash160', 'hash256') \
                else 3 ** 7
            inj = trace.Injector(int(hi ** st['at']) - 1, act,
                                 skip_critical=True)
            try:
                inj.run(lambda: digest(st, data, fails, net, 'interrupted'))
            except (Stop, MemoryError):
                fault('call_interrupted')
        elif x == 'noarg' and st['fn'] in ('blake2b', 'blake2s'):
            e = dict(st, arg='bytes')
            k = {a: bytes.fromhex(v) if isinstance(v, str) else v
                 for a, v in st['kw'].items()}
            if f(**k) != want(st['fn'], net, b'', st['kw']):
                fails.append(dict(cls='wrong digest', fn=st['fn'], kw=e['kw'],
                                  data='(default)'))
        if fails:
            return
        v = digest(st, data, fails, net, 'sender')
        if fails:
            return
        if x == 'lost':
            fault('message_lost')
            continue
        got = data
        if x == 'flip' and data:
            i = int(st['at'] * len(data))
            got = data[:i] + bytes([data[i] ^ st['v']]) + data[i + 1:]
            fault('message_flip')
        elif x == 'cut' and data:
            got = data[:int(st['at'] * len(data))]
            fault('message_cut')
        net = select(st['to'])
        for _ in range(2 if x == 'twice' else 1):
            w = digest(st, got, fails, net, 'receiver')
            if fails:
                return
            agree = want(st['fn'], net, got, st.get('kw', {})) == v
            if (w == v) != agree:
                fails.append(dict(cls='parties disagree', fn=st['fn']))
        if x == 'twice':
            fault('message_repeated')


def guarded(*a, **k):
    try:
        play(*a, **k)
    except Refused:
        pass


def execute(sc, res):
    steps = list(enumerate(sc['steps']))
    fails, faults = [], {}
    if not steps:
        return
    if 'threads' in sc:
        n = sc['threads']
        lib.select(sc['nets'][sc['steps'][0]['net']])
        steps = [(s, dict(st, net=sc['steps'][0]['net'],
                          to=sc['steps'][0]['net'])) for s, st in steps]
        logs = [[] for _ in range(n)]
        s = trace.Scheduler(
            [lambda t=t: guarded(sc, steps[t:] + steps[:t], fails, logs[t],
                                 faults, True) for t in range(n)],
            sc['plan'], sc['mode'])
        for o in s.run():
            if o is not None:
                raise AssertionError(o)
        res.fault('preemption_at_' + sc['mode'], s.preempted)
        log = logs + [s.switches[:300]]
    else:
        log = []
        guarded(sc, steps, fails, log, faults)
    for k, v in faults.items():
        res.fault(k, v)
    for x in fails:
        res.fail(x.pop('cls'), **x)
    for s, st in steps:
        net = sc['nets'][st['net']]
        res.state(st['fn'], st['arg'], len(st['d']) // 2, 'decred' in net,
                  st.get('x'))
    res.events += len(steps)
    res.real_calls += 2 * len(steps)
    res.log.append(log)
    res.log.append(core.digest(log))
    res.nontrivial = bool(faults) or len(
        {'decred' in sc['nets'][st['net']] for st in sc['steps']}) > 1
