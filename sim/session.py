'''Running call expressions in a session, and the same in a fresh process.'''
from sim import lib, trace


def program(cmd):
    '''[[net, slot or None, expr], ...] in this process; outcome of the last'''
    refs, out = {}, None
    for net, slot, x in cmd:
        lib.select(net)
        if slot is None:
            out = lib.outcome(x, refs)
        else:
            try:
                refs[slot] = lib.ev(x, refs)
            except Exception as e:
                refs[slot] = None
                out = lib.exc(e)
    return out


def counted(cmd):
    '''[mode, program]: outcome of the program's last call, and the number of
    steps of library code and uses of the hash backend that call takes, and
    the profile of the steps'''
    mode, prog = cmd
    refs = {}
    for net, slot, x in prog:
        lib.select(net)
        if slot is not None:
            refs[slot] = lib.ev(x, refs)
            continue
        try:
            fn, a, k = lib.prepare(x, refs)
        except Exception:
            return [['args'], 0, 0, []]
        prof = trace.Profile()
        inj = trace.Injector(-1, None, mode, profile=prof)
        uses = lib.HashFault.uses
        try:
            v = inj.run(lambda: fn(*a, **k))
        except Exception as e:
            out = lib.exc(e, True)
        else:
            out = ['v', lib.canon(v)]
        return [out, inj.n, lib.HashFault.uses - uses, prof.result()]


def name_of(x):
    return x.get('f') or x.get('m') or x.get('g')


def ref_slots(x, acc=None):
    'slots an expression refers to'
    acc = set() if acc is None else acc
    if isinstance(x, list):
        for y in x:
            ref_slots(y, acc)
    elif isinstance(x, dict):
        if 'r' in x:
            acc.add(x['r'])
        else:
            for y in x.values():
                ref_slots(y, acc)
    return acc


def scribble(v, depth=0):
    '''What a careless caller may do to a value it holds: overwrite mutable
    buffers, empty lists and dicts, try to write attributes. Library objects
    must not let any of it happen to them.'''
    n = 0
    if isinstance(v, bytearray):
        if v:
            v[0] ^= 0xff
            v[-1] ^= 0x55
        v += b'\xee'
        return 1
    if isinstance(v, list):
        for x in v:
            n += scribble(x, depth + 1)
        v.append(None)
        v.reverse()
        return n + 1
    if isinstance(v, dict):
        v.clear()
        return 1
    if isinstance(v, tuple) and depth < 4:
        for x in v:
            n += scribble(x, depth + 1)
    return n
