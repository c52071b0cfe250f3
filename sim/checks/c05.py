'''C05: a resource failure never turns into a wrong answer.

A session makes calls; the simulator fails an allocation (MemoryError) at a
chosen line of library code, or fails a chosen use of the hash implementation
(out of memory, backend error, RIPEMD-160 not provided), once or several times
in a row. Oracle: the call returns its correct value, or the injected failure
itself comes out (possibly as the explicit cause of another error); once the
failure is over the repeated call is correct. Correct = what a process without
failures computes.
'''
from sim import calls, gen, lib, session, trace
from sim.checks import c04
from sim.node import Fresh

ID = 'C05'
RUNS = dict(quick=3500, thorough=150000)
COMPONENTS = dict(
    real=['all of riemann'],
    stub=['allocator failures (MemoryError at a chosen line of library '
          'code)', 'hashlib (real digests behind a wrapper that can fail)'])
NONTRIVIAL = 'at least one failure was injected into a call'
STATES = 'digest of (call, place of the failure)'


class BackendError(Exception):
    'the crypto library failed'


def hash_error(kind):
    def make(name):
        if name == 'ripemd160' and kind == 'unsupported':
            return ValueError('unsupported hash type ripemd160')
        if kind == 'memory':
            return MemoryError('simulated (hash %s)' % name)
        return BackendError('simulated (hash %s)' % name)
    return make


def gen_(rng, tier):
    nets = [gen.any_net(rng) for _ in range(rng.randint(1, 2))]
    one = c04.make_calls(rng, nets)
    pl = [one() for _ in range(rng.randint(2, 8))]
    if rng.chance(.4):      # functions that are rarely called as well
        names, same, xs = calls.one_function(rng)
        pl = [(names[0], y) for y in (same if rng.chance(.6) else xs)]
        nets = names
    steps = []
    change = c04.objects(rng, pl, steps)
    p_hash = rng.choice([.2, .5, .9])
    for _ in range(rng.randint(3, 10)):
        net, x = rng.choice(pl)
        if rng.chance(.15):
            net = rng.choice(nets)
        x = change(net, x)
        st = dict(net=net, x=x)
        if rng.chance(.75):
            st['fail'] = [
                dict(how='hash', at=rng.random(), kind=rng.choice(
                    ['memory', 'backend', 'unsupported']))
                if rng.chance(p_hash) else dict(how='alloc', at=c04.within(rng, session.name_of(x) or '')
                          if rng.chance(.6) else rng.random())
                for _ in range(rng.pick([(6, 1), (2, 2), (1, 4)]))]
        steps.append(st)
    return dict(steps=steps)


def explicit(e, inj):
    'is the injected failure what came out, or its declared cause?'
    seen = set()
    while e is not None and id(e) not in seen:
        if e is inj:
            return True
        seen.add(id(e))
        e = e.__cause__
    return False


def execute(sc, res):
    fresh = Fresh(lambda cmd: session.counted(cmd[1]) if cmd[0] == 'count'
                  else session.program(cmd[1]))
    refs, recipe, dumps = {}, {}, {}
    for i, st in enumerate(sc['steps']):
        net, x = st['net'], st['x']
        need = sorted(session.ref_slots(x))
        if any(n not in refs for n in need):
            continue
        name = session.name_of(x) if not ('l' in x or 'ba' in x) else 'arg'
        prog = [recipe[n] for n in need] + [[net, None, x]]
        lib.select(net)
        if st.get('keep'):
            try:
                refs[i] = lib.ev(x, refs)
            except Exception:
                continue
            recipe[i] = [net, i, x]
            dumps[i] = lib.canon(refs[i])
            continue
        want, n, uses, prof = fresh.run(['count', ['line', prog]])
        if want == ['args']:
            continue
        for f in st.get('fail', []):
            fn, a, kw = lib.prepare(x, refs)
            before = lib.canon([a, kw])
            made = []
            if f['how'] == 'hash':
                if not uses:
                    continue
                base = hash_error(f['kind'])

                def make(name):
                    made.append(base(name))
                    return made[0]
                lib.HashFault.arm(min(uses - 1, int(f['at'] * uses)), make)
                inj = None
                run = (lambda g: g())
            else:
                if not n:
                    continue

                def act():
                    made.append(MemoryError('simulated'))
                    raise made[0]
                at = f['at']
                inj = trace.Injector(
                    min(n - 1, trace.place(at, prof) if isinstance(at, list)
                        else int(at * n)), act, skip_critical=True)
                run = inj.run
            err = None
            try:
                got = ['v', lib.canon(run(lambda: fn(*a, **kw)))]
            except Exception as e:
                got, err = lib.exc(e, True), e
            lib.HashFault.disarm()
            res.real_calls += 1
            if made:
                how = f['how'] + ('_' + f['kind'] if 'kind' in f else '')
                res.fault(how)
                res.nontrivial = True
                res.state(name, how, inj.fired if inj else f['at'])
                if got == want or (want[0] == 'x' and got[:2] == want[:2]):
                    res.probe('failure_absorbed')
                elif err is not None and explicit(err, made[0]):
                    res.probe('failure_reported')
                else:
                    res.fail('wrong answer under failure', step=i, call=name,
                             net=net, failure=how, injected=repr(made[0]),
                             place=inj.fired if inj else None, got=got,
                             want=want)
            elif got != want:
                res.fail('wrong result', step=i, call=name, net=net, got=got,
                         want=want)
            if lib.canon([a, kw]) != before:
                res.fail('argument changed', step=i, call=name, net=net)
            res.ev(i, net, name, f['how'], bool(made), got[0])
            if res.violations:
                break
        if not res.violations:
            fn, a, kw = lib.prepare(x, refs)
            c04.compare(fn, a, kw, want, i, name, net, res,
                        'after the failure')
            for s in refs:
                if lib.canon(refs[s]) != dumps[s]:
                    res.fail('live object changed', step=i, call=name, slot=s)
        if res.violations:
            break
    fresh.stop()
