'''Mutation campaign: many small changes to the library, those that pass its
tests kept, and which checks notice them.

  python3 tools/mutate.py make OUT.jsonl [--jobs 8] [--max N] [--seed N]
      writes the mutants that pass the stable tests
  python3 tools/mutate.py run OUT.jsonl RES.jsonl [--jobs 8] [--frac .05]
      runs all checks with a fraction of their quick runs on each

Works on copies under /tmp. A mutant that nothing notices is not a bug as
such: it may change nothing anyone can see, or lie outside every property.
'''
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.seeded import ENV                              # noqa: E402

LIB = '/repo/riemann'
CHECKS = ['C%02d' % n for n in range(1, 23) if n != 21]
FIRST = {       # checks most likely to notice, by file
    'tx/': ['C06', 'C12', 'C10', 'C07', 'C09', 'C18', 'C13', 'C14', 'C01'],
    'encoding/': ['C08', 'C16', 'C14', 'C02'], 'script/': ['C15', 'C02', 'C05'],
    'blake256': ['C11', 'C17'], 'utils': ['C22', 'C17', 'C18', 'C13'],
    'simple': ['C13', 'C14', 'C18'], 'networks/standard': ['C19', 'C20'],
    'networks/': ['C16', 'C13', 'C08']}


class Finder(ast.NodeVisitor):
    'collects (what, start, end, new text) for one file'

    def __init__(self, src):
        self.src = src
        self.off = [0]
        for line in src.encode().splitlines(True):
            self.off.append(self.off[-1] + len(line))
        self.out = []
        self.quiet = 0
        self.names = [[]]

    def at(self, n):
        return (self.off[n.lineno - 1] + n.col_offset,
                self.off[n.end_lineno - 1] + n.end_col_offset)

    def text(self, n):
        a, b = self.at(n)
        return self.src.encode()[a:b].decode()

    def put(self, what, n, new):
        if not self.quiet:
            a, b = self.at(n)
            self.out.append((what, a, b, new))

    def visit_FunctionDef(self, n):
        self.names.append([a.arg for a in n.args.args
                           if a.arg not in ('self', 'cls')])
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(
                body[0].value, ast.Constant):
            body = body[1:]
        for d in n.args.defaults + [d for d in n.args.kw_defaults if d]:
            self.visit(d)
        self.block(body)
        self.names.pop()

    def block(self, body):
        for s in body:
            if isinstance(s, (ast.Expr, ast.AugAssign)) or (
                    isinstance(s, ast.Raise) and s.exc):
                self.put('drop', s, 'pass')
            self.visit(s)

    def visit_ClassDef(self, n):
        for s in n.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            self.visit(s)

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)

    def visit_Raise(self, n):
        self.quiet += 1
        self.generic_visit(n)
        self.quiet -= 1

    def _cond(self, n):
        self.put('negate', n.test, 'not (%s)' % self.text(n.test))

    def visit_If(self, n):
        self._cond(n)
        self.put('never', n.test, 'False')
        self.put('always', n.test, 'True')
        self.visit(n.test)
        self.block(n.body)
        self.block(n.orelse)

    def visit_For(self, n):
        self.visit(n.iter)
        self.put('skip first', n.iter, 'list(%s)[1:]' % self.text(n.iter))
        self.put('skip last', n.iter, 'list(%s)[:-1]' % self.text(n.iter))
        self.block(n.body)

    def visit_While(self, n):
        self.visit(n.test)
        self.block(n.body)

    def visit_With(self, n):
        self.block(n.body)

    def visit_Try(self, n):
        self.block(n.body)
        for h in n.handlers:
            self.block(h.body)
        self.block(n.finalbody)

    def visit_IfExp(self, n):
        self._cond(n)
        self.put('then', n, '(%s)' % self.text(n.body))
        self.put('else', n, '(%s)' % self.text(n.orelse))
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            lt, rt = self.text(n.left), self.text(n.comparators[0])
            swap = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=',
                    ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>',
                    ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not',
                    ast.IsNot: 'is'}
            op = swap.get(type(n.ops[0]))
            if op:
                self.put('compare', n, '%s %s %s' % (lt, op, rt))
            if rt == 'None':
                self.put('truth', n, ('not %s' if isinstance(
                    n.ops[0], ast.Is) else 'bool(%s)') % lt)
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.put('bool', n, '(%s)' % op.join(
            '(%s)' % self.text(v) for v in n.values))
        for k in range(len(n.values)):
            rest = [self.text(v) for j, v in enumerate(n.values) if j != k]
            j = ' and ' if op == ' or ' else ' or '
            self.put('term', n, '(%s)' % j.join('(%s)' % r for r in rest))
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.put('not', n, '(%s)' % self.text(n.operand))
        self.generic_visit(n)

    def visit_BinOp(self, n):
        swap = {ast.Add: '-', ast.Sub: '+', ast.Mult: '//',
                ast.FloorDiv: '*', ast.LShift: '>>', ast.RShift: '<<',
                ast.BitAnd: '|', ast.BitOr: '&', ast.BitXor: '|',
                ast.Mod: '//'}
        op = swap.get(type(n.op))
        if op and not isinstance(n.left, ast.Constant):
            self.put('arith', n, '(%s) %s (%s)' % (
                self.text(n.left), op, self.text(n.right)))
        if isinstance(n.op, ast.Add):
            self.put('left', n, '(%s)' % self.text(n.left))
            self.put('right', n, '(%s)' % self.text(n.right))
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.put('const', n, str(not v))
        elif isinstance(v, int):
            self.put('const', n, str(v + 1))
            if v:
                self.put('const', n, str(v - 1))
        elif isinstance(v, bytes):
            if v:
                self.put('const', n, repr(bytes([v[0] ^ 1]) + v[1:]))
                self.put('const', n, "b''")
            else:
                self.put('const', n, "b'\\x00'")
        elif isinstance(v, str) and not self.quiet:
            self.put('const', n, repr(v + 'x' if v else 'x'))
            if v.isalnum():
                self.put('const', n, "''")

    def visit_Subscript(self, n):
        if isinstance(n.slice, ast.Slice):
            self.put('noslice', n, self.text(n.value))
            if n.slice.lower is not None:
                self.put('slice', n.slice.lower, '(%s) + 1' % self.text(
                    n.slice.lower))
            if n.slice.upper is not None:
                self.put('slice', n.slice.upper, '(%s) - 1' % self.text(
                    n.slice.upper))
        self.generic_visit(n)

    def visit_Call(self, n):
        for a, b in zip(n.args, n.args[1:]):
            if self.text(a) != self.text(b):
                x, y = self.at(a)[0], self.at(b)[1]
                if not self.quiet:
                    self.out.append(('swap', x, y, '%s, %s' % (
                        self.text(b), self.text(a))))
        if len(n.keywords) > 1:
            for k in n.keywords:
                if k.arg and not self.quiet:
                    a, b = self.at(k)
                    s = self.src.encode()
                    while s[b:b + 1] in (b',', b' ', b'\n'):
                        b += 1
                        if s[b - 1:b] == b',':
                            break
                    self.out.append(('dropkw', a, b, ''))
        if len(n.args) == 1 and isinstance(n.func, ast.Name) and \
                n.func.id in ('bytes', 'tuple', 'bytearray', 'list', 'int'):
            self.put('unwrap', n, '(%s)' % self.text(n.args[0]))
        self.generic_visit(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in self.names[-1]:
            for o in self.names[-1]:
                if o != n.id:
                    self.put('name', n, o)

    def visit_Return(self, n):
        self.generic_visit(n)


def mutants():
    out = []
    for root, _, files in os.walk(LIB):
        if 'tests' in root or 'examples' in root:
            continue
        for f in sorted(files):
            if not f.endswith('.py') or f == 'opcodes.py':
                continue
            p = os.path.join(root, f)
            src = open(p).read()
            v = Finder(src)
            for s in ast.parse(src).body:
                if not (isinstance(s, ast.Expr)
                        and isinstance(s.value, ast.Constant)):
                    v.visit(s)
            for what, a, b, new in v.out:
                line = src.encode()[:a].count(b'\n') + 1
                out.append(dict(file=os.path.relpath(p, '/repo'), line=line,
                                what=what, a=a, b=b, new=new,
                                old=src.encode()[a:b].decode()))
    return out


def mutate(d, m):
    p = os.path.join(d, m['file'])
    s = open(os.path.join('/repo', m['file']), 'rb').read()
    s = s[:m['a']] + m['new'].encode() + s[m['b']:]
    try:
        compile(s, p, 'exec')
    except (SyntaxError, ValueError):
        return False
    with open(p, 'wb') as f:
        f.write(s)
    return True


def scratch():
    d = tempfile.mkdtemp(prefix='mut_')
    shutil.copytree('/repo', os.path.join(d, 'repo'), symlinks=True,
                    ignore=shutil.ignore_patterns('.git'))
    return d


def make(ar):
    ms = mutants()
    random.Random(ar.seed).shuffle(ms)
    done = set()
    if os.path.exists(ar.out):
        done = {x['n'] for x in map(json.loads, open(ar.out))}
    ms = list(enumerate(ms))[ar.start:ar.max]
    print(len(ms), 'mutants')
    dirs = [scratch() for _ in range(ar.jobs)]

    def one(x):
        n, m = x
        if n in done:
            return
        d = dirs.pop()
        try:
            w = os.path.join(d, 'repo')
            if not mutate(w, m):
                return
            try:
                r = subprocess.run(
                    ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p',
                     'no:cacheprovider', 'riemann/tests'], cwd=w, env=ENV,
                    capture_output=True, text=True, timeout=60)
                ok = r.returncode == 0
            except subprocess.TimeoutExpired:
                ok = False
            shutil.copy(os.path.join('/repo', m['file']),
                        os.path.join(w, m['file']))
            if ok:
                with open(ar.out, 'a') as f:
                    f.write(json.dumps(dict(m, n=n)) + '\n')
        finally:
            dirs.append(d)
    with ThreadPoolExecutor(ar.jobs) as ex:
        list(ex.map(one, ms))
    for d in dirs:
        shutil.rmtree(d)


def run(ar):
    ms = [json.loads(x) for x in open(ar.inp)]
    done = set()
    if os.path.exists(ar.out):
        done = {x['n'] for x in map(json.loads, open(ar.out))}
    ms = [m for m in ms if m['n'] not in done][:ar.max]
    runs = {}
    for c in CHECKS:
        mod = open(os.path.join(HERE, 'sim/checks', c.lower() + '.py')).read()
        q = int(mod.split('quick=')[1].split(',')[0])
        runs[c] = max(20, int(q * ar.frac))

    def one(m):
        d = scratch()
        try:
            w = os.path.join(d, 'repo')
            mutate(w, m)
            order = [c for k, cs in FIRST.items() if k in m['file']
                     for c in cs]
            order += [c for c in CHECKS if c not in order]
            m['caught'] = None
            for c in order:
                r = subprocess.run(
                    [sys.executable, 'check.py', c, '--no-evidence',
                     '--runs', str(runs[c]), '--workers', '1'],
                    cwd=HERE, env=dict(os.environ, RIEMANN_REPO=w),
                    capture_output=True, text=True)
                if r.returncode:
                    cls = [x.split('"')[3] for x in r.stdout.splitlines()
                           if x.startswith(' "cls"')]
                    m['caught'] = [c, r.returncode, (cls or [''])[0]]
                    break
            with open(ar.out, 'a') as f:
                f.write(json.dumps(m) + '\n')
        finally:
            shutil.rmtree(d)
    with ThreadPoolExecutor(ar.jobs) as ex:
        list(ex.map(one, ms))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd', choices=['make', 'run', 'count'])
    ap.add_argument('files', nargs='*')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--max', type=int, default=10 ** 9)
    ap.add_argument('--start', type=int, default=0)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--frac', type=float, default=.05)
    ar = ap.parse_args()
    if ar.cmd == 'count':
        from collections import Counter
        print(Counter(m['what'] for m in mutants()))
    elif ar.cmd == 'make':
        ar.out, = ar.files
        make(ar)
    else:
        ar.inp, ar.out = ar.files
        run(ar)


if __name__ == '__main__':
    main()
