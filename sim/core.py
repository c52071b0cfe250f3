'''Simulation engine: seeds, isolated runs, batches, shrinking, replay files,
evidence.

One run = one integer. From it gen(rng) makes a scenario (plain JSON: the
actors, their steps, the schedule and the faults) and execute(scenario) plays
it and returns violations plus the event log. Every run happens in a process
forked from a pristine image (library imported, nothing called yet), so a run
cannot see what another left behind and a replay needs nothing but the
scenario.
'''
import errno
import gc
import hashlib
import json
import os
import random
import resource
import select
import signal
import sys
import traceback
from time import monotonic

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 30          # seconds of CPU per run before it is examined as hung
HANG_EVENTS = 30_000_000  # lines of library code in one run: not terminating


class Rng(random.Random):
    'the only source of choice in a run'

    def chance(self, p):
        return self.random() < p

    def hexs(self, n):
        return self.getrandbits(8 * n).to_bytes(n, 'big').hex() if n else ''

    def pick(self, weighted):
        'weighted: list of (weight, value)'
        t = self.random() * sum(w for w, _ in weighted)
        for w, v in weighted:
            t -= w
            if t < 0:
                return v
        return weighted[-1][1]


def run_seed(master, check, index):
    d = hashlib.sha256(f'{master}/{check}/{index}'.encode()).digest()
    return int.from_bytes(d[:8], 'big')


def digest(obj):
    s = json.dumps(obj, sort_keys=True, separators=(',', ':'))
    return hashlib.sha256(s.encode()).hexdigest()[:16]


class Result:
    'what one run reports'

    def __init__(self):
        self.violations = []    # dicts: cls, detail
        self.log = []           # event log; no draws and no clocks here
        self.faults = {}        # fault kind -> times it actually fired
        self.probes = {}        # rare condition -> times hit
        self.states = set()     # digests of states / interleavings reached
        self.events = 0         # simulator events played
        self.simtime = 0        # simulated milliseconds, where there is a clock
        self.real_calls = 0     # calls into the code under test
        self.nontrivial = False

    def fail(self, cls, **detail):
        self.violations.append(dict(cls=cls, detail=detail))

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, kind, n=1):
        if n:
            self.probes[kind] = self.probes.get(kind, 0) + n

    def state(self, *obj):
        self.states.add(digest(obj))

    def ev(self, *entry):
        self.events += 1
        self.log.append(list(entry))

    def pack(self, with_log):
        d = dict(v=self.violations, f=self.faults, p=self.probes,
                 s=sorted(self.states), e=self.events, t=self.simtime,
                 c=self.real_calls, n=self.nontrivial, lh=digest(self.log))
        if with_log:
            d['log'] = self.log
        return d


def _default(o):
    if isinstance(o, (bytes, bytearray)):
        return o.hex()
    return repr(o)


class RunFailed(Exception):
    'the harness itself failed (not the property)'


def read_all(fd, timeout):
    end = monotonic() + timeout
    buf = []
    while True:
        left = end - monotonic()
        if left <= 0:
            return None
        try:
            r, _, _ = select.select([fd], [], [], left)
        except OSError as e:
            if e.errno == errno.EINTR:
                continue
            raise
        if not r:
            return None
        b = os.read(fd, 1 << 20)
        if not b:
            return b''.join(buf)
        buf.append(b)


def in_child(fn, cpu=CPU_LIMIT, wall=600, mem=3 << 30):
    '''Run fn() in a forked process; return ('ok', value), ('cpu', None),
    ('err', traceback) or ('died', status).'''
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            os.setpgid(0, 0)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            if mem:
                resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            try:
                out = json.dumps(['ok', fn()], default=_default)
            except BaseException:
                sys.settrace(None)
                out = json.dumps(['err', traceback.format_exc()[-4000:]])
            data = out.encode()
            view = memoryview(data)
            while view:
                view = view[os.write(wfd, view):]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(wfd)
    try:
        data = read_all(rfd, wall)
    finally:
        os.close(rfd)
    if data is None:
        _killpg(pid)
        os.waitpid(pid, 0)
        return 'died', 'wall'
    _, st = os.waitpid(pid, 0)
    _killpg(pid)    # simulated nodes the run may have left
    if data:
        try:
            k, v = json.loads(data)
            return k, v
        except ValueError:
            pass
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU,
                                                   signal.SIGKILL):
        return 'cpu', None
    return 'died', st


def _killpg(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass


class Check:
    '''Wraps one check module (ID, gen(rng, tier), execute(scenario, Result),
    optional RUNS, simplify(scenario))'''

    def __init__(self, mod):
        self.mod = mod
        self.id = mod.ID

    def scenario(self, seed, tier):
        rng = Rng(seed)
        sc = self.mod.gen_(rng, tier)
        sc['seed'] = seed
        return sc

    def play(self, sc, with_log=False, hang_budget=None):
        'play a scenario in this (forked) process'
        from sim import trace
        res = Result()
        try:
            if hang_budget:
                with trace.budget(hang_budget):
                    self.mod.execute(sc, res)
            else:
                self.mod.execute(sc, res)
        except trace.Budget:
            res.fail('hang', note='library code did not finish within the '
                     'event budget', budget=hang_budget)
        except Exception as e:
            sys.settrace(None)
            if not trace.from_lib(e):
                raise
            # nothing this check does may make the library raise here
            res.fail('library raised', error=trace.text(e))
        return res.pack(with_log)

    def isolated(self, sc, with_log=False):
        'play in a fresh fork; confirm hangs by counting library events'
        k, v = in_child(lambda: self.play(sc, with_log))
        if k == 'cpu' or (k == 'died' and v == 'wall'):
            k2, v2 = in_child(lambda: self.play(sc, with_log, HANG_EVENTS),
                              cpu=300, wall=900)
            if k2 == 'ok':
                return k2, v2
            return k, v
        return k, v

    def seeded(self, seed, tier, with_log=False):
        def go():
            sc = self.scenario(seed, tier)
            # through JSON, so that a replay sees the very same value
            return self.play(json.loads(json.dumps(sc)), with_log)
        k, v = in_child(go)
        if k in ('cpu', 'died'):
            sc = self.make(seed, tier)
            return self.isolated(sc, with_log)
        return k, v

    def make(self, seed, tier):
        k, v = in_child(lambda: self.scenario(seed, tier))
        if k != 'ok':
            raise RunFailed(f'generation failed: {k} {v}')
        return v


# ---------------------------------------------------------------- batches

def _worker(check, master, tier, indices, deadline, wfd, known=()):
    '''Play the runs of `indices`, up to the first violation that is not
    known; write one JSON line with the totals.'''
    tot = dict(runs=0, e=0, t=0, c=0, f={}, p={}, s=set(), nt=0, bad=[],
               err=[], lh=[], shapes=set())
    for i in indices:
        if monotonic() > deadline and tot['runs']:
            break
        seed = run_seed(master, check.id, i)
        k, v = check.seeded(seed, tier)
        tot['runs'] += 1
        if k != 'ok':
            tot['err'].append([i, seed, k, v if isinstance(v, str)
                               else repr(v)])
            if len(tot['err']) > 2:
                break
            continue
        tot['e'] += v['e']
        tot['t'] += v['t']
        tot['c'] += v['c']
        tot['nt'] += bool(v['n'])
        for key in 'fp':
            for a, b in v[key].items():
                tot[key][a] = tot[key].get(a, 0) + b
        tot['s'].update(v['s'])
        if v['n']:
            tot['shapes'].add(v['lh'])
        if v['v']:
            tot['bad'].append([i, seed, v['v']])
            if any(x['cls'] not in known for x in v['v']):
                break
    tot['s'] = sorted(tot['s'])
    tot['shapes'] = sorted(tot['shapes'])
    data = memoryview(json.dumps(tot, default=_default).encode())
    while data:
        data = data[os.write(wfd, data):]


def batch(check, master, tier, start, count, workers, deadline, known=()):
    'play runs start..start+count over worker processes'
    procs = []
    for w in range(workers):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(rfd)
                for p, r in procs:
                    os.close(r)
                _worker(check, master, tier,
                        range(start + w, start + count, workers),
                        deadline, wfd, known)
            except BaseException:
                traceback.print_exc()
                code = 1
            finally:
                os._exit(code)
        os.close(wfd)
        procs.append((pid, rfd))
    total = dict(runs=0, e=0, t=0, c=0, f={}, p={}, s=set(), nt=0, bad=[],
                 err=[], shapes=set())
    for pid, rfd in procs:
        data = read_all(rfd, 36000)
        os.close(rfd)
        os.waitpid(pid, 0)
        if not data:
            total['err'].append([-1, 0, 'worker died', ''])
            continue
        t = json.loads(data)
        merge(total, t)
    return total


def merge(total, t):
    for k in ('runs', 'e', 't', 'c', 'nt'):
        total[k] += t[k]
    for key in 'fp':
        for a, b in t[key].items():
            total[key][a] = total[key].get(a, 0) + b
    total['s'].update(t['s'])
    total['shapes'].update(t['shapes'])
    total['bad'] += t['bad']
    total['err'] += t['err']


# ---------------------------------------------------------------- shrinking

def _paths(x, path=()):
    'paths of all lists, strings and ints of a JSON value, outermost first'
    out = []
    if isinstance(x, list):
        out.append((path, 'list'))
        for i, y in enumerate(x):
            out += _paths(y, path + (i,))
    elif isinstance(x, dict):
        for k in sorted(x):
            if k in ('seed', 'kind', 'fam', 'op', 'net', 'check'):
                continue
            out += _paths(x[k], path + (k,))
    elif isinstance(x, str):
        out.append((path, 'str'))
    elif isinstance(x, bool) or x is None:
        pass
    elif isinstance(x, int):
        out.append((path, 'int'))
    return out


def _get(x, path):
    for p in path:
        x = x[p]
    return x


def _set(x, path, v):
    y = json.loads(json.dumps(x))
    if not path:
        return v
    t = y
    for p in path[:-1]:
        t = t[p]
    t[path[-1]] = v
    return y


def shrink(check, sc, cls, budget_s=60, max_tries=1500):
    '''Smallest scenario found that still shows violation class cls:
    drop list elements (steps, faults, actors, vector entries), then simplify
    strings and numbers.'''
    end = monotonic() + budget_s
    tries = 0

    def still(cand):
        nonlocal tries
        tries += 1
        k, v = in_child(lambda: check.play(cand), cpu=10, wall=60)
        return k == 'ok' and any(x['cls'] == cls for x in v['v'])

    def left():
        return tries < max_tries and monotonic() < end

    for _ in range(4):
        changed = False
        # lists: drop halves, quarters, ... single elements
        for path, t in _paths(sc):
            if t != 'list':
                continue
            try:
                lst = _get(sc, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(lst, list):
                continue
            n = max(1, len(lst) // 2)
            while lst and left():
                i = 0
                while i < len(lst) and left():
                    cand = lst[:i] + lst[i + n:]
                    c = _set(sc, path, cand)
                    if still(c):
                        sc, lst, changed = c, cand, True
                    else:
                        i += n
                if n == 1:
                    break
                n //= 2
        for path, t in _paths(sc):
            if not left():
                break
            try:
                v = _get(sc, path)
            except (KeyError, IndexError, TypeError):
                continue
            cands = []
            if type(v).__name__ != t:
                continue
            if t == 'str' and v:
                if all(ch in '0123456789abcdef' for ch in v) \
                        and len(v) % 2 == 0:
                    cands = ['', v[:len(v) // 4 * 2], '00' * (len(v) // 2)]
                else:
                    continue
            elif t == 'int':
                cands = [0, 1, v // 2, v - 1]
            for c in cands:
                if c == v or (t == 'int' and abs(c) >= abs(v)):
                    continue
                cc = _set(sc, path, c)
                if still(cc):
                    sc, changed = cc, True
                    break
        if not changed or not left():
            break
    return sc, tries


def pristine():
    gc.collect()
    gc.freeze()
