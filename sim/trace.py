'''Control over library code while it runs: counting its steps, stopping it at
a chosen step (interruption, failed allocation, crash), and scheduling threads
inside it one step at a time.

The seam is sys.settrace restricted to the library's own files: every line
(or bytecode) event of library code is a point at which the simulator decides
what happens next.
'''
import ast
import functools
import os
import sys
import traceback
import _thread

REPO = os.path.realpath(os.environ.get('RIEMANN_REPO', '/repo'))
ROOT = os.path.join(REPO, 'riemann') + os.sep


@functools.lru_cache(None)
def is_lib(filename):
    return os.path.realpath(filename).startswith(ROOT)


def from_lib(e):
    'was this exception raised in code of the library?'
    if getattr(e, 'from_lib', False):
        return True
    tb = e.__traceback__
    if tb is None:
        return False
    while tb.tb_next is not None:
        tb = tb.tb_next
    return is_lib(tb.tb_frame.f_code.co_filename)


def text(e):
    if getattr(e, 'from_lib', False):
        return str(e)
    return ''.join(traceback.format_exception(e)[-3:])[-600:]


MAX_STEPS = 20_000_000     # more than any run needs


class Budget(BaseException):
    'library code used up its budget of steps'


class Interrupt(BaseException):
    'the simulated asynchronous interruption'


class budget:
    'with budget(n): library code may execute n lines'

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        left = [self.n]

        def local(frame, event, arg):
            if event == 'line':
                left[0] -= 1
                if left[0] < 0:
                    raise Budget()
            return local

        def glob(frame, event, arg):
            return local if is_lib(frame.f_code.co_filename) else None
        self.old = sys.gettrace()
        sys.settrace(glob)

    def __exit__(self, *exc):
        sys.settrace(self.old)


class _Critical(ast.NodeVisitor):
    '''lines at which an asynchronous exception cannot be cleaned up after,
    however carefully a library is written: clean-up code itself and the
    headers that lead into protected blocks'''

    def __init__(self):
        self.lines = set()

    def span(self, nodes):
        for n in nodes:
            self.lines.update(range(n.lineno, (n.end_lineno or n.lineno) + 1))

    def visit_Try(self, n):
        self.lines.add(n.lineno)
        self.span(n.finalbody)
        for h in n.handlers:
            self.lines.update(range(h.lineno, h.end_lineno + 1))
        self.generic_visit(n)

    visit_TryStar = visit_Try

    def visit_With(self, n):
        for i in n.items:
            self.span([i.context_expr])
        self.lines.add(n.lineno)
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        if n.name in ('__exit__', '__enter__', '__del__'):
            self.lines.update(range(n.lineno, n.end_lineno + 1))
        self.generic_visit(n)


@functools.lru_cache(None)
def critical_lines(filename):
    try:
        with open(filename) as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError):
        return frozenset()
    v = _Critical()
    v.visit(tree)
    # the statement right before a try: state it changed is what the
    # protected block restores
    for node in ast.walk(tree):
        for field in ('body', 'orelse', 'finalbody'):
            seq = getattr(node, field, None)
            if not isinstance(seq, list):
                continue
            for a, b in zip(seq, seq[1:]):
                if isinstance(b, ast.Try) and b.finalbody:
                    v.lines.update(range(a.lineno, a.end_lineno + 1))
    return frozenset(v.lines)


class Profile:
    '''which functions of the library a call runs, and from which step to
    which each time'''

    def __init__(self):
        self.spans = {}
        self.open = {}

    @staticmethod
    def name(frame):
        c = frame.f_code
        return os.path.basename(c.co_filename) + ':' + c.co_qualname

    def enter(self, frame, n):
        self.spans.setdefault(self.name(frame), [[], []])
        self.open[id(frame)] = n

    def leave(self, frame, n):
        first, last = self.spans[self.name(frame)]
        a = self.open.pop(id(frame), None)
        if a is not None:
            (first if len(first) < 40 else last).append([a, n])
            if len(last) > 20:
                del last[0]

    def result(self):
        return sorted([k, a + b] for k, (a, b) in self.spans.items() if a)


def place(at, prof):
    '''the step at which a call is in the at[0]-th of the functions it runs
    (or the one of that name), the at[1]-th time, at[2] of the way through'''
    if isinstance(at[0], str):
        named = [p for p in prof if p[0].split(':')[-1].split('.')[-1] == at[0]]
        prof, at = named or prof, [at[1]] + list(at[1:])
    if not prof:
        return 0
    # rather one of the file of the function called than one of those that
    # every call runs
    home = min(prof, key=lambda p: p[1][0])[0].split(':')[0]
    if not isinstance(at[0], str):
        if at[0] < .6:
            prof = [p for p in prof if p[0].startswith(home + ':')]
            at = [at[0] / .6] + list(at[1:])
        else:
            at = [(at[0] - .6) / .4] + list(at[1:])
    spans = prof[min(len(prof) - 1, int(at[0] * len(prof)))][1]
    a, b = spans[min(len(spans) - 1, int(at[1] * len(spans)))]
    return a + int(at[2] * (b - a))


def enable(mode):
    '''CPython delivers opcode events only to trace functions installed after
    some frame asked for them once'''
    if mode == 'opcode':
        sys._getframe().f_trace_opcodes = True


class Injector:
    '''Runs fn() and acts at the k-th step of library code.

    mode: 'line' or 'opcode'. skip_critical: not in clean-up code but at the
    first step after it. action(): raises, or exits the process.'''

    def __init__(self, k, action, mode='line', skip_critical=False,
                 profile=None):
        self.k, self.action = k, action
        self.profile = profile
        self.mode, self.skip = mode, skip_critical
        self.n = 0
        self.fired = None

    @staticmethod
    def _critical(frame):
        while frame is not None:
            name = frame.f_code.co_filename
            if is_lib(name) and (frame.f_lineno is None or
                                 frame.f_lineno in critical_lines(name)):
                return True     # (no line: compiler-made clean-up code)
            frame = frame.f_back
        return False

    def _local(self, frame, event, arg):
        if event != self.mode:
            return self._local
        n = self.n
        self.n = n + 1
        if n > MAX_STEPS:
            raise Budget()
        if self.k >= 0 and n >= self.k and self.fired is None:
            if self.skip and self._critical(frame):
                return self._local
            self.fired = (frame.f_code.co_name, (frame.f_lineno or 0)
                          - frame.f_code.co_firstlineno)
            self.action()
        return self._local

    def _glob(self, frame, event, arg):
        if not is_lib(frame.f_code.co_filename):
            return None
        if self.mode == 'opcode':
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        if self.profile is not None:
            self.profile.enter(frame, self.n)
            return self._noting
        return self._local

    def _noting(self, frame, event, arg):
        if event == 'return':
            self.profile.leave(frame, self.n)
        self._local(frame, event, arg)
        return self._noting

    def run(self, fn):
        old = sys.gettrace()
        enable(self.mode)
        sys.settrace(self._glob)
        try:
            return fn()
        finally:
            sys.settrace(old)


def count_steps(fn, mode='line', skip_critical=False):
    inj = Injector(-1, None, mode, skip_critical)
    try:
        inj.run(fn)
    except Exception:
        pass
    return inj.n


# ---------------------------------------------------------------- threads

_ALLOC = _thread.allocate_lock
_current = {}       # real thread id -> (scheduler, sim thread number)


class SimLock:
    '''threading.Lock / RLock as the scheduler sees them: a thread that cannot
    get one is parked and another one runs.'''

    def __init__(self, reentrant=False):
        self._reentrant = reentrant
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while True:
            if self._owner is None or (self._reentrant and self._owner == me):
                self._owner = me
                self._count += 1
                return True
            if not blocking:
                return False
            ent = _current.get(me)
            if ent is None:
                raise RuntimeError('simulated lock: deadlock')
            if timeout is not None and timeout >= 0:
                return False
            ent[0].blocked(ent[1], self)

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._count -= 1
        if self._count <= 0:
            self._owner = None
            self._count = 0

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    # Condition support
    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        s = (self._owner, self._count)
        self._owner, self._count = None, 0
        return s

    def _acquire_restore(self, s):
        self.acquire()
        self._count = s[1]

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0


def patch_threading():
    'before the library is imported'
    import threading
    threading.Lock = lambda: SimLock(False)
    threading.RLock = lambda: SimLock(True)


class Deadlock(Exception):
    pass


class Scheduler:
    '''Runs real threads one at a time. `plan` is a list of [thread, quantum]:
    let that thread run for so many steps of library code, then go on with the
    next entry; when the plan is used up, threads run to completion in turn.'''

    def __init__(self, fns, plan, mode='line', max_steps=30_000_000,
                 profile=None):
        self.fns = fns
        self.profile = profile  # notes when functions are entered
        self.plan = list(plan)
        self.pos = 0
        self.mode = mode
        self.gates = [_ALLOC() for _ in fns]
        for g in self.gates:
            g.acquire()
        self.main = _ALLOC()
        self.main.acquire()
        self.done = [False] * len(fns)
        self.waiting = [None] * len(fns)    # SimLock a thread waits for
        self.left = 0
        self.cur = None
        self.results = [None] * len(fns)
        self.switches = []      # (from, to, steps run)
        self.preempted = 0      # switches in the middle of library code
        self.steps = 0
        self.max_steps = max_steps
        self.error = None

    # choose who runs next; returns thread number or None
    def _next(self):
        n = len(self.fns)
        while self.pos < len(self.plan):
            t, q = (list(self.plan[self.pos]) + [0, 0])[:2]
            self.pos += 1
            if q > 0 and 0 <= t < n and self._runnable(t):
                self.left = q
                return t
        self.left = 1 << 60
        for t in range(n):
            if self._runnable(t):
                return t
        return None

    def _runnable(self, t):
        if self.done[t]:
            return False
        w = self.waiting[t]
        return w is None or w._owner is None

    def _switch(self, me, end=False):
        t = self._next()
        if t is None:
            if end and all(self.done):
                self.main.release()
                return
            self.error = 'deadlock'
            self.main.release()
            if not end:
                self.gates[me].acquire()    # for ever; the process exits
            return
        if t == me:
            return
        self.switches.append((me, t))
        if not end:
            self.preempted += 1
        self.cur = t
        self.gates[t].release()
        if not end:
            self.gates[me].acquire()

    def blocked(self, me, lock):
        self.waiting[me] = lock
        while lock._owner is not None:
            self._switch(me)
        self.waiting[me] = None

    def _body(self, i):
        self.gates[i].acquire()
        _current[_thread.get_ident()] = (self, i)
        mode = self.mode
        prof = self.profile

        def note(frame, event, arg):
            if event == 'return':
                prof.leave(frame, self.steps)
            local(frame, event, arg)
            return note

        def local(frame, event, arg):
            if event == mode:
                self.steps += 1
                self.left -= 1
                if self.left <= 0:
                    self._switch(i)
                elif self.steps > self.max_steps:
                    raise Budget()
            return local

        def glob(frame, event, arg):
            if not is_lib(frame.f_code.co_filename):
                return None
            if mode == 'opcode':
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            if prof is not None:
                prof.enter(frame, self.steps)
                return note
            return local
        try:
            sys.settrace(glob)
            try:
                self.results[i] = self.fns[i]()
            finally:
                sys.settrace(None)
        except BaseException as e:
            self.results[i] = ['harness', repr(e)]
        self.done[i] = True
        self._switch(i, end=True)

    def run(self):
        enable(self.mode)
        for i in range(len(self.fns)):
            _thread.start_new_thread(self._body, (i,))
        t = self._next()
        self.cur = t
        self.gates[t].release()
        self.main.acquire()
        if self.error:
            raise Deadlock(self.error)
        return self.results
