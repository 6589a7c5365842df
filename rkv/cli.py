"""
Runs the command line programs of /repo: in this process (fast) or as real
processes.  All files live in a scratch directory.
"""
import contextlib
import io
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
import traceback

from . import env


class Result(object):
    def __init__(self, rc, out, err, exc=None):
        self.rc, self.out, self.err, self.exc = rc, out, err, exc

    @property
    def text(self):
        return self.out.decode('utf-8')

    def __repr__(self):
        return 'exit status %r, output %r, errors %r' % (self.rc,
                self.out[-400:], self.err[-600:])


@contextlib.contextmanager
def scratch():
    tmp = tempfile.mkdtemp(prefix='rkv')
    try:
        yield tmp
    finally:
        shutil.rmtree(tmp)


def run(script, args=(), stdin=b'', environ=None, real=False, cwd=None,
        pipe=False):
    """ pipe: standard input that can not be seeked """
    path = os.path.join(env.REPO, script)
    args = [str(a) for a in args]
    if real:
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH='',
                PYTHONPYCACHEPREFIX='/nonexistent/pycache')
        e.update(environ or {})
        p = subprocess.run([env.VENV_PY, '-W', 'ignore', path] + args,
                input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                env=e, cwd=cwd, timeout=300)
        return Result(p.returncode, p.stdout, p.stderr)
    out, err = io.BytesIO(), io.BytesIO()
    old = (sys.argv, sys.stdin, sys.stdout, sys.stderr)
    olde = {k: os.environ.get(k) for k in environ or {}}
    oldcwd = os.getcwd()
    rc, exc = 0, None
    sys.argv = [path] + args
    src = io.BytesIO(stdin)
    if pipe:
        from .paths import Stream
        src = io.BufferedReader(Stream(stdin, 64))
    sys.stdin = io.TextIOWrapper(src, encoding='utf-8')
    so = sys.stdout = io.TextIOWrapper(out, encoding='utf-8', write_through=True)
    se = sys.stderr = io.TextIOWrapper(err, encoding='utf-8',
            errors='backslashreplace', write_through=True)
    try:
        os.environ.update(environ or {})
        if cwd:
            os.chdir(cwd)
        runpy.run_path(path, run_name='__main__')
    except SystemExit as e:
        rc = e.code
        if rc is None:
            rc = 0
        elif not isinstance(rc, int):
            sys.stderr.write(str(rc))
            rc = 1
    except Exception as e:
        rc, exc = 1, e
        err.write(traceback.format_exc().encode('utf-8', 'backslashreplace'))
    finally:
        for s in (so, se):
            with contextlib.suppress(Exception):
                s.flush()
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old
        os.chdir(oldcwd)
        for k, v in olde.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
    return Result(rc, out.getvalue(), err.getvalue(), exc)


def write(tmp, name, data):
    p = os.path.join(tmp, name)
    if isinstance(data, str):
        data = data.encode('utf-8')
    with open(p, 'wb') as f:
        f.write(data)
    return p


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def tree(tmp):
    """ {relative name: content} of all files below tmp """
    r = {}
    for base, dirs, files in os.walk(tmp):
        for f in files:
            p = os.path.join(base, f)
            r[os.path.relpath(p, tmp)] = read(p)
    return r
