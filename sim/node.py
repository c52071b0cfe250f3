'''Simulated processes. A Node is a real forked process that runs real library
code, driven over a pipe by the simulator one command at a time; it can be
crashed at any step of library code, losing everything it held in memory.'''
import json
import os
import signal
import sys
import traceback

from sim import trace

CRASHED = 97


class Crashed(Exception):
    'the node crashed while executing the command'


class NodeError(Exception):
    'the harness code inside the node failed'


def _write(fd, obj):
    d = json.dumps(obj).encode()
    v = memoryview(len(d).to_bytes(4, 'big') + d)
    while v:
        v = v[os.write(fd, v):]


def _readn(fd, n):
    b = b''
    while len(b) < n:
        c = os.read(fd, n - len(b))
        if not c:
            return None
        b += c
    return b


def _read(fd):
    h = _readn(fd, 4)
    if h is None:
        return None
    d = _readn(fd, int.from_bytes(h, 'big'))
    return None if d is None else json.loads(d)


class Node:
    '''handler(state, cmd) -> JSON value, run inside the node; `state` is the
    node's volatile memory'''

    def __init__(self, handler):
        self.handler = handler
        self.pid = None
        self.boots = 0
        self.start()

    def start(self):
        assert self.pid is None
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                self._serve(r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.pid, self.w, self.r = pid, w1, r2
        self.boots += 1

    def _serve(self, r, w):
        state = {}
        while True:
            req = _read(r)
            if req is None:
                return
            crash_at, mode, cmd = req
            inj = None
            try:
                if crash_at is None:
                    v = self.handler(state, cmd)
                else:
                    inj = trace.Injector(
                        crash_at, lambda: os._exit(CRASHED), mode)
                    v = inj.run(lambda: self.handler(state, cmd))
                out = ['ok', v]
            except trace.Budget:
                sys.settrace(None)
                out = ['budget', None]
            except BaseException as e:
                sys.settrace(None)
                out = ['err', traceback.format_exc()[-3000:]]
                if isinstance(e, Exception) and trace.from_lib(e):
                    out = ['lib', trace.text(e)]
            out.append(inj.n if inj else None)
            _write(w, out)

    def call(self, cmd, crash_at=None, mode='line'):
        '''Run a command. With crash_at, the node dies at that step of library
        code (if it gets that far): raises Crashed.'''
        if self.pid is None:
            self.start()
        try:
            _write(self.w, [crash_at, mode, cmd])
            rep = _read(self.r)
        except BrokenPipeError:
            rep = None
        if rep is None:
            st = self._reap()
            if os.WIFEXITED(st) and os.WEXITSTATUS(st) == CRASHED:
                raise Crashed()
            if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGXCPU:
                # let the run's own limit and hang examination decide
                os.kill(os.getpid(), signal.SIGXCPU)
            raise NodeError('node died: %r' % st)
        self.steps = rep[2]
        if rep[0] == 'budget':
            raise trace.Budget()
        if rep[0] != 'ok':
            e = NodeError(rep[1])
            e.from_lib = rep[0] == 'lib'
            raise e
        return rep[1]

    def _reap(self):
        os.close(self.w)
        os.close(self.r)
        _, st = os.waitpid(self.pid, 0)
        self.pid = None
        return st

    def kill(self):
        'crash between commands'
        if self.pid is not None:
            os.kill(self.pid, signal.SIGKILL)
            self._reap()

    stop = kill


class Fresh:
    '''Evaluates programs in processes that have never called the library:
    the reference for "as if nothing had happened before". Must be created
    before the run makes its first library call.'''

    def __init__(self, program):
        def handler(state, cmd):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    try:
                        out = ['ok', program(cmd)]
                    except trace.Budget:
                        sys.settrace(None)
                        out = ['budget', None]
                    except BaseException as e:
                        sys.settrace(None)
                        out = ['err', traceback.format_exc()[-3000:]]
                        if isinstance(e, Exception) and trace.from_lib(e):
                            out = ['lib', trace.text(e)]
                    _write(w, out)
                finally:
                    os._exit(0)
            os.close(w)
            v = _read(r)
            os.close(r)
            _, st = os.waitpid(pid, 0)
            if v is None:
                if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGXCPU:
                    os.kill(os.getpid(), signal.SIGXCPU)
                raise RuntimeError('fresh process died: %r' % st)
            if v[0] == 'budget':
                raise trace.Budget()
            if v[0] != 'ok':
                e = RuntimeError(v[1])
                e.from_lib = v[0] == 'lib'
                raise e
            return v[1]
        self.node = Node(handler)

    def run(self, cmd):
        return self.node.call(cmd)

    def stop(self):
        self.node.stop()
