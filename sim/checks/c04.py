'''C04: an interrupted call leaves no trace.

A session keeps live objects and makes calls; the simulator raises an
asynchronous exception (KeyboardInterrupt, a cancellation, a timeout) at a
chosen line or bytecode inside a call, then goes on with retries and other
calls, switching networks in between. Oracles: the interruption propagates;
arguments, live objects and the network are as before; every later call gives
what a process that never saw the interrupted call computes.
'''
import json

from sim import calls, gen, lib, session, trace
from sim.node import Fresh

ID = 'C04'
RUNS = dict(quick=9000, thorough=150000)
COMPONENTS = dict(
    real=['all of riemann'],
    stub=['delivery of asynchronous exceptions (simulated at a chosen line '
          'or bytecode of library code; not inside clean-up code, where no '
          'Python code can survive one)'])
NONTRIVIAL = 'at least one call was interrupted half way'
STATES = 'digest of (call, place of the interruption)'


class Cancelled(BaseException):
    'what an event loop throws into a call'


class TimeUp(BaseException):
    'what an alarm handler raises'


KINDS = {'KeyboardInterrupt': KeyboardInterrupt, 'Cancelled': Cancelled,
         'TimeUp': TimeUp, 'SystemExit': SystemExit}
CALL_KINDS = calls.KINDS


def make_calls(rng, nets, res_big=.03, kinds=None):
    'a list of (net, call) to draw from'
    pool = calls.Pool(rng, nets, big=rng.chance(res_big))
    c = calls.Calls(rng, pool, mut=rng.choice([0, .3]))
    if not kinds and rng.chance(.5):
        kinds = [rng.choice(CALL_KINDS) for _ in range(2)]

    def one():
        net = rng.choice(nets)
        if kinds:
            return net, getattr(c, 'c_' + rng.choice(kinds))(net)
        return net, c.call(net)
    return one


def objects(rng, pl, steps):
    'turn some "on" and argument expressions into kept objects'
    built = {}

    def keep(net, x):
        key = json.dumps(x, sort_keys=True)
        if key not in built:
            steps.append(dict(net=net, x=x, keep=True))
            built[key] = len(steps) - 1
        return {'r': built[key]}

    def change(net, x):
        if 'on' in x and x['on'].get('f') and rng.chance(.7) \
                and not x['on']['f'].startswith('blake256'):
            x = dict(x, on=keep(net, x['on']))
        a = []
        for y in x.get('a', ()):
            if isinstance(y, dict) and ('f' in y or 'l' in y or 'ba' in y) \
                    and rng.chance(.3):
                y = keep(net, y)
            a.append(y)
        if 'a' in x:
            x = dict(x, a=a)
        return x
    return change


def within(rng, name):
    'a place in one of the functions a call runs: see trace.place'
    return [name.split('.')[-1] if rng.chance(.3) else rng.random(),
            rng.choice([0, rng.random()]), rng.choice([0, rng.random(),
                                                       rng.random(), .999])]


def cold(rng, tier):
    '''the first call a process ever makes is interrupted, early as a rule;
    then come the same call and others of its kind'''
    nets, same, xs = calls.one_function(rng, nets=rng.pick([(3, 1), (1, 2)]))
    exc = rng.choice(sorted(KINDS))
    mode = rng.choice(['line', 'line', 'opcode'])
    pl = [(rng.choice(nets) if rng.chance(.2) else nets[0], x)
          for x in (same if rng.chance(.8) else xs)]
    steps = []
    for k in range(rng.randint(1, 4)):
        net, x = rng.choice(pl)
        steps.append(dict(
            net=net, x=x, at=within(rng, session.name_of(x))
            if rng.chance(.6) else rng.random() if rng.chance(.3)
            else 1 + int(2 ** (8 * rng.random())), exc=exc, mode=mode,
            retry=True))
    for k in range(rng.randint(0, 3)):
        net, x = rng.choice(pl)
        steps.append(dict(net=net, x=x))
    return dict(steps=steps)


def gen_(rng, tier):
    if rng.chance(.5):
        return cold(rng, tier)
    nets = [gen.any_net(rng) for _ in range(rng.randint(1, 3))]
    one = make_calls(rng, nets)
    pl = [one() for _ in range(rng.randint(2, 8))]
    steps = []
    change = objects(rng, pl, steps)
    exc = rng.choice(sorted(KINDS))
    mode = rng.choice(['line', 'line', 'opcode'])
    for _ in range(rng.randint(3, 10)):
        net, x = rng.choice(pl)
        if rng.chance(.15):
            net = rng.choice(nets)
        x = change(net, x)
        st = dict(net=net, x=x)
        if rng.chance(.6):
            st['at'] = within(rng, session.name_of(x) or '') \
                if rng.chance(.5) else rng.random() if rng.chance(.8) \
                else rng.choice([0, .999, .99, .95])
            st['exc'] = exc if rng.chance(.7) else rng.choice(sorted(KINDS))
            st['mode'] = mode
            st['retry'] = rng.chance(.7)
        steps.append(st)
    return dict(steps=steps)


def execute(sc, res):
    fresh = Fresh(lambda cmd: session.counted(cmd[1]) if cmd[0] == 'count'
                  else session.program(cmd[1]))
    refs, recipe = {}, {}
    dumps = {}

    def kept_same(i, name, what):
        for n in refs:
            d = lib.canon(refs[n])
            if d != dumps[n]:
                res.fail('live object changed', step=i, call=name, slot=n,
                         when=what, before=dumps[n], after=d)
    for i, st in enumerate(sc['steps']):
        net, x = st['net'], st['x']
        need = sorted(session.ref_slots(x))
        if any(n not in refs for n in need):
            continue
        name = session.name_of(x) if not ('l' in x or 'ba' in x) else 'arg'
        prog = [recipe[n] for n in need] + [[net, None, x]]
        lib.select(net)
        if st.get('keep'):
            try:
                refs[i] = lib.ev(x, refs)
            except Exception:
                continue
            recipe[i] = [net, i, x]
            dumps[i] = lib.canon(refs[i])
            continue
        klass = lib.riemann.network
        state0 = params(klass)
        if 'at' in st:
            want, n, _, prof = fresh.run(['count', [st['mode'], prog]])
            if n == 0:
                continue
            at = st['at']
            k = min(n - 1, trace.place(at, prof) if isinstance(at, list)
                    else int(at * n) if isinstance(at, float) else at - 1)
            fn, a, kw = lib.prepare(x, refs)
            before = lib.canon([a, kw])
            E = KINDS[st['exc']]

            def act():
                raise E('simulated')
            inj = trace.Injector(k, act, st['mode'], skip_critical=True)
            try:
                v = inj.run(lambda: fn(*a, **kw))
                got = ['v', lib.canon(v)]
            except E:
                got = 'interrupted'
            except Exception as e:
                got = lib.exc(e, True)
            except BaseException as e:
                got = ['x', type(e).__name__]
            res.real_calls += 1
            if inj.fired:
                res.fault('interrupt_' + st['exc'])
                res.fault('interrupt_at_' + st['mode'])
                res.nontrivial = True
                res.state(name, inj.fired)
                if got != 'interrupted':
                    res.fail('interruption swallowed', step=i, call=name,
                             net=net, place=inj.fired, got=got)
            elif got != want:
                res.fail('wrong result', step=i, call=name, net=net, got=got,
                         want=want)
            res.ev(i, net, name, k, inj.fired, got if isinstance(got, str)
                   else got[:1])
            if lib.canon([a, kw]) != before:
                res.fail('argument changed', step=i, call=name, net=net,
                         place=inj.fired, before=before,
                         after=lib.canon([a, kw]))
            if lib.riemann.network is not klass:
                res.fail('selected network changed', step=i, call=name,
                         net=net, place=inj.fired)
            elif params(klass) != state0:
                res.fail('network parameters changed', step=i, call=name,
                         net=net, place=inj.fired)
            kept_same(i, name, 'interrupted')
            if st['retry'] and not res.violations \
                    and (before_blake(x) is False):
                compare(fn, a, kw, want, i, name, net, res, 'retry')
        else:
            try:
                fn, a, kw = lib.prepare(x, refs)
            except Exception:
                continue
            want = fresh.run(['run', prog])
            compare(fn, a, kw, want, i, name, net, res, 'later call')
            kept_same(i, name, 'called')
        if res.violations:
            break
    fresh.stop()


def before_blake(x):
    'is the call made on a streaming hasher (whose feed was cut short)?'
    on = x.get('on')
    return isinstance(on, dict) and on.get('f', '').startswith('blake256')


def compare(fn, a, kw, want, i, name, net, res, what):
    try:
        got = ['v', lib.canon(fn(*a, **kw))]
    except Exception as e:
        got = lib.exc(e, True)
    res.real_calls += 1
    res.ev(i, net, name, what, got[0])
    if got != want:
        res.fail('trace of an interrupted call', step=i, call=name, net=net,
                 when=what, got=got, want=want)


def params(klass):
    return lib.canon({n: getattr(klass, n) for n in dir(klass)
                      if not n.startswith('_')
                      and not callable(getattr(klass, n))})
