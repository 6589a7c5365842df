#!/opt/venv/bin/python
"""
Mutation analysis of the checks (development only, not part of any check).

  mutate.py list FILE...           print the mutants of files of /repo
  mutate.py run OUT.jsonl [-n N] [-s SCALE] [-j JOBS] FILE...
                                   run the checks, scaled down, on N randomly
                                   chosen mutants (all without -n)
  mutate.py tests OUT.jsonl        run the test suite on the survivors
Mutants live in scratch copies only.
"""
import ast
import hashlib
import json
import os
import random
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


class Pos(object):
    def __init__(self, src):
        self.b = src.encode('utf-8')
        self.starts = [0]
        for l in self.b.split(b'\n'):
            self.starts.append(self.starts[-1] + len(l) + 1)

    def span(self, n):
        return (self.starts[n.lineno - 1] + n.col_offset,
            self.starts[n.end_lineno - 1] + n.end_col_offset)

    def text(self, n):
        a, z = self.span(n)
        return self.b[a:z].decode('utf-8')


CMP = {ast.Eq: ['!='], ast.NotEq: ['=='], ast.Lt: ['<=', '>'],
    ast.LtE: ['<', '>'], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<'],
    ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'],
    ast.NotIn: ['in']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '//', ast.Div: '*',
    ast.FloorDiv: '*', ast.Mod: '+'}


def mutants(path):
    """ -> list of (line, description, new source) """
    with open(path, encoding='utf-8') as f:
        src = f.read()
    p = Pos(src)
    tree = ast.parse(src)
    out = []

    def rep(n, new, what):
        a, z = p.span(n)
        out.append((n.lineno, what, (p.b[:a] + new.encode('utf-8') +
            p.b[z:]).decode('utf-8')))

    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(
                    n.body[0].value, ast.Constant):
                doc.add(n.body[0])
                doc.add(n.body[0].value)
    skip = set()
    for n in ast.walk(tree):
        # messages and the like
        if isinstance(n, ast.Raise) and n.exc is not None:
            for m in ast.walk(n.exc):
                skip.add(m)
        if isinstance(n, ast.FunctionDef) and n.name == 'usage' or isinstance(
                n, ast.Call) and p.text(n.func) in ('usage', 'sys.exit',
                    'gettext_helper.install', 'gettext.install', 'f.close'):
            for m in ast.walk(n):
                skip.add(m)
        if isinstance(n, ast.ClassDef) and n.name.endswith('Exception'):
            for m in ast.walk(n):
                skip.add(m)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                n.func.id in ('_', 'print'):
            for m in ast.walk(n):
                skip.add(m)

    def stmts(body):
        for s in body:
            if s in doc or s in skip:
                continue
            if re.search('_initargs|NotImplemented|^super\\(', p.text(s)):
                continue
            if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)) and \
                    not (isinstance(s, ast.Expr) and s.value in skip):
                yield s, 'pass', 'drop: ' + p.text(s)[:60]
            elif isinstance(s, ast.Raise):
                yield s, 'pass', 'drop: ' + p.text(s)[:60]
            elif isinstance(s, ast.Return) and s.value is not None and not (
                    isinstance(s.value, ast.Constant) and s.value.value is None):
                yield s, 'return None', 'return None: ' + p.text(s)[:60]
            elif isinstance(s, ast.Return):
                yield s, 'pass', 'drop return'
            elif isinstance(s, ast.Break):
                yield s, 'continue', 'break -> continue'
                yield s, 'pass', 'drop break'
            elif isinstance(s, ast.Continue):
                yield s, 'break', 'continue -> break'
                yield s, 'pass', 'drop continue'
            if isinstance(s, ast.Raise) and s.exc is not None and \
                    isinstance(s.exc, ast.Call):
                yield s, 'raise Exception("x")', 'other class: ' + p.text(s)[:60]
            if isinstance(s, ast.Try) and False:
                pass

    for n in ast.walk(tree):
        if n in skip or n in doc:
            continue
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if isinstance(b, list):
                for s, new, what in stmts(b):
                    rep(s, new, what)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = p.text(n.left), p.text(n.comparators[0])
            for op in CMP.get(type(n.ops[0]), []):
                rep(n, '(%s %s %s)' % (l, op, r), '%s -> %s' % (p.text(n)[:50], op))
            c = n.comparators[0]
            if isinstance(c, (ast.List, ast.Tuple, ast.Set)):
                for i in range(len(c.elts)):
                    ts = [p.text(e) for j, e in enumerate(c.elts) if j != i]
                    rep(c, '[' + ', '.join(ts) + ']', 'without %s: %s' % (
                        p.text(c.elts[i]), p.text(n)[:50]))
        elif isinstance(n, ast.BoolOp):
            parts = ['(%s)' % p.text(v) for v in n.values]
            other = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(' + other.join(parts) + ')', 'and/or: ' + p.text(n)[:60])
            op = ' and ' if isinstance(n.op, ast.And) else ' or '
            for i in range(len(parts)):
                rep(n, '(' + op.join(parts[:i] + parts[i + 1:]) + ')',
                    'drop operand %s of %s' % (parts[i][:40], p.text(n)[:40]))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, '(%s)' % p.text(n.operand), 'drop not: ' + p.text(n)[:50])
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            rep(n, '(%s %s %s)' % (p.text(n.left), BIN[type(n.op)],
                p.text(n.right)), 'arith %s: %s' % (BIN[type(n.op)],
                p.text(n)[:50]))
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            if isinstance(n, ast.If) and '__main__' in p.text(n.test):
                continue
            if not isinstance(n.test, ast.Constant):
                if not isinstance(n, ast.While):
                    rep(n.test, 'True', 'if True: ' + p.text(n.test)[:60])
                rep(n.test, 'False', 'if False: ' + p.text(n.test)[:60])
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                rep(n, str(not n.value), '%s -> %s' % (n.value, not n.value))
            elif isinstance(n.value, int):
                rep(n, '(%d)' % (n.value + 1), '%d + 1' % n.value)
                if n.value:
                    rep(n, '(%d)' % (n.value - 1), '%d - 1' % n.value)
            elif isinstance(n.value, str) and 0 < len(n.value) < 60 and \
                    n.end_lineno == n.lineno:
                rep(n, repr(n.value + 'x'), 'string %r + x' % n.value)
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value,
                    (ast.Name, ast.Attribute, ast.Call, ast.Subscript)):
                base = p.text(n.func.value)
                if base not in ('self', 'sys', 'os', 'json', 'base64', 'copy') \
                        and not (base.startswith('super')):
                    rep(n, '(%s)' % base, 'without .%s(): %s' % (n.func.attr,
                        p.text(n)[:50]))
            if p.text(n.func).startswith('super(') or p.text(n.func) == 'super':
                continue
            if n.func is not None and len(n.args) == 1 and not n.keywords:
                rep(n, '(%s)' % p.text(n.args[0]), 'without call: ' +
                    p.text(n)[:50])
            if len(n.args) == 2 and not n.keywords:
                rep(n, '%s(%s, %s)' % (p.text(n.func), p.text(n.args[1]),
                    p.text(n.args[0])), 'swapped args: ' + p.text(n)[:50])
            for k in n.keywords:
                if k.arg:
                    rest = [p.text(a) for a in n.args] + ['%s=%s' % (q.arg,
                        p.text(q.value)) for q in n.keywords if q is not k and
                        q.arg]
                    rep(n, '%s(%s)' % (p.text(n.func), ', '.join(rest)),
                        'without %s=: %s' % (k.arg, p.text(n)[:50]))
            if len(n.args) >= 2 and p.text(n.func) != 'isinstance' and not any(isinstance(a, ast.Starred) for a in
                    n.args):
                rep(n, '%s(%s)' % (p.text(n.func), ', '.join([p.text(a) for a
                    in n.args[:-1]] + ['%s=%s' % (q.arg, p.text(q.value)) for q
                    in n.keywords if q.arg])),
                    'without last arg: ' + p.text(n)[:50])
        elif isinstance(n, ast.ExceptHandler) and isinstance(n.type, ast.Tuple):
            for i in range(len(n.type.elts)):
                rep(n.type, '(%s,)' % ', '.join(p.text(e) for j, e in
                    enumerate(n.type.elts) if j != i), 'not catching ' +
                    p.text(n.type.elts[i]))
        elif isinstance(n, ast.ExceptHandler) and isinstance(n.type, ast.Name) \
                and n.type.id == 'Exception':
            rep(n.type, 'ZeroDivisionError', 'not catching Exception')
    seen, res = set(), []
    for line, what, new in out:
        if new in seen or new == src:
            continue
        seen.add(new)
        try:
            compile(new, path, 'exec', dont_inherit=True)
        except (SyntaxError, ValueError):
            continue
        except Warning:
            pass
        res.append((line, what, new))
    return res


def key(f, line, what, new):
    return hashlib.sha256((f + what + new).encode()).hexdigest()[:12]


MINI = r'''
import sys, os, json, time, resource
resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
from rkv import runner
runner.WORKERS = 1
runner.CASE_CPU_LIMIT = 20
runner.gen.shrink = lambda *a: None
checks, scale, seed = sys.argv[1].split(','), float(sys.argv[2]), int(sys.argv[3])
import importlib, multiprocessing
for c in checks:
    mod = importlib.import_module(runner.module_for(c))
    mp = multiprocessing.get_context('fork')
    a, b = mp.Pipe(False)
    p = mp.Process(target=runner.worker, args=(runner.module_for(c), 'quick', seed, 0, b, scale))
    t = time.time()
    p.start(); b.close()
    try:
        r = json.loads(a.recv())
    except EOFError:
        r = {'error': 'worker ended'}
    p.join()
    if 'error' in r:
        print('K', c, 'HARNESS', r['error'].strip().split('\n')[-1][:200]); sys.exit()
    if r['violation']:
        print('K', c, r['violation']['sub'], r['violation']['error'].split('\n')[0][:200]); sys.exit()
print('S')
'''

ALL = ['C%02d' % i for i in range(1, 60) if os.path.exists(os.path.join(HERE,
    'rkv/checks/c%02d.py' % i))]


def order(f, stats):
    """ checks by how often they killed mutants of the file """
    s = stats.setdefault(f, {})
    return sorted(ALL, key=lambda c: (-s.get(c, 0), c))


def tree(f, new):
    t = tempfile.mkdtemp(prefix='rkvmut')
    r = os.path.join(t, 'repo')
    os.mkdir(r)
    subprocess.run('git -C %s archive HEAD | tar -x -C %s' % (REPO, r),
        shell=True, check=True)
    with open(os.path.join(r, f), 'w', encoding='utf-8') as fd:
        fd.write(new)
    return t, r


def one(f, line, what, new, scale, stats, checks=None, seed=1):
    t, r = tree(f, new)
    try:
        env = dict(os.environ, RKV_REPO=r, PYTHONPATH=HERE, PYTHONHASHSEED='0',
            PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8', TMPDIR=t)
        t0 = time.time()
        p = subprocess.Popen([sys.executable, '-c', MINI, ','.join(checks or
            order(f, stats)), str(scale), str(seed)], env=env,
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=t,
            start_new_session=True)
        try:
            o, e = p.communicate(timeout=1500)
            o = o.decode('utf-8', 'replace').strip().split('\n')[-1]
            if p.returncode or not o or o[0] not in 'KS':
                o = 'K IMPORT ' + e.decode('utf-8', 'replace').strip().split('\n')[-1][:200]
        except subprocess.TimeoutExpired:
            o = 'K TIMEOUT'
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
        w = o.split(' ')
        if w[0] == 'K' and w[1].startswith('C'):
            s = stats.setdefault(f, {})
            s[w[1]] = s.get(w[1], 0) + 1
        return {'id': key(f, line, what, new), 'file': f, 'line': line,
            'what': what, 'res': o, 's': round(time.time() - t0, 1)}
    finally:
        shutil.rmtree(t, ignore_errors=True)


def tests(f, new):
    """ does the test suite accept it? (one process, all test modules) """
    t, r = tree(f, new)
    try:
        env = {'HOME': '/root', 'LC_ALL': 'C.UTF-8', 'PATH': os.environ['PATH'],
            'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPYCACHEPREFIX':
            '/nonexistent/pycache', 'PYTHONHASHSEED': '0', 'R': r, 'T': t}
        sh = ('mount --bind "$R" /repo && bash /opt/vp/test.sh "$T/o.json" '
            '> "$T/log" 2>&1')
        subprocess.run(['unshare', '-m', 'bash', '-c', sh], env=env,
            timeout=900)
        try:
            with open(t + '/o.json') as fd:
                return json.load(fd)
        except Exception:
            return None
    finally:
        shutil.rmtree(t, ignore_errors=True)


def main():
    cmd = sys.argv[1]
    args = sys.argv[2:]
    if cmd == 'list':
        for f in args:
            for line, what, new in mutants(os.path.join(REPO, f)):
                print('%s:%d %s' % (f, line, what))
        return
    out = args.pop(0)
    done = {}
    if os.path.exists(out):
        with open(out) as fd:
            for l in fd:
                d = json.loads(l)
                done[d['id']] = d
    if cmd == 'run':
        n, scale, jobs, seed, checks = None, 0.02, 8, 1, None
        while args and args[0].startswith('-'):
            o = args.pop(0)
            v = args.pop(0)
            if o == '-n':
                n = int(v)
            elif o == '-s':
                scale = float(v)
            elif o == '-j':
                jobs = int(v)
            elif o == '-c':
                checks = v.split(',')
        todo = []
        for f in args:
            for line, what, new in mutants(os.path.join(REPO, f)):
                if key(f, line, what, new) not in done:
                    todo.append((f, line, what, new))
        random.Random(7).shuffle(todo)
        if n:
            todo = todo[:n]
        stats = {}
        for d in done.values():
            w = d['res'].split(' ')
            if w[0] == 'K' and w[1].startswith('C'):
                s = stats.setdefault(d['file'], {})
                s[w[1]] = s.get(w[1], 0) + 1
        print(len(todo), 'mutants')
        with open(out, 'a') as fd, ThreadPoolExecutor(jobs) as ex:
            def go(m):
                r = one(*m, scale, stats, checks)
                fd.write(json.dumps(r) + '\n')
                fd.flush()
            for x in [ex.submit(go, m) for m in todo]:
                x.result()
    elif cmd == 'again':
        # survivors once more, at another scale
        scale = float(args[0])
        surv = {k for k, d in done.items() if d['res'] == 'S'}
        stats = {}
        for d in done.values():
            w = d['res'].split(' ')
            if w[0] == 'K' and w[1].startswith('C'):
                t = stats.setdefault(d['file'], {})
                t[w[1]] = t.get(w[1], 0) + 1
        top = int(args[1]) if len(args) > 1 else 99
        todo = []
        for f in sorted({done[k]['file'] for k in surv}):
            for line, what, new in mutants(os.path.join(REPO, f)):
                if key(f, line, what, new) in surv:
                    todo.append((f, line, what, new))
        with open(out + '.again', 'a') as fd, ThreadPoolExecutor(8) as ex:
            def go(m):
                fd.write(json.dumps(one(*m, scale, stats,
                    order(m[0], stats)[:top], 2)) + '\n')
                fd.flush()
            for x in [ex.submit(go, m) for m in todo]:
                x.result()
    elif cmd == 'tests':
        with open('/opt/vp/BASELINE.json') as fd:
            base = json.load(fd)
        surv = {k for k, d in done.items() if d['res'] == 'S'}
        tf = out + '.tests'
        have = set()
        if os.path.exists(tf):
            with open(tf) as fd:
                have = {json.loads(l)['id'] for l in fd}
        for f in sorted({done[k]['file'] for k in surv}):
            for line, what, new in mutants(os.path.join(REPO, f)):
                k = key(f, line, what, new)
                if k not in surv or k in have:
                    continue
                r = tests(f, new)
                with open(tf, 'a') as fd:
                    fd.write(json.dumps(dict(done[k], tests=r and {
                        'passed': len(r.get('passed', [])),
                        'failed': len(r.get('failed', []))})) + '\n')


if __name__ == '__main__':
    main()
