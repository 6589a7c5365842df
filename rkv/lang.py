"""
A process in which the library speaks another language.  The catalogues in
/repo/lang are compiled into a scratch directory, which is the working directory
of the process (that is where the library looks for them).

As a program: answers requests (JSON, one per line) of the process that started
it: [module of the check, function, argument] -> result of the function.
"""
import atexit
import glob
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(
        __file__))))
    from rkv import env
    from rkv.runner import expect
else:
    from . import env
    from .runner import expect

_workers = {}
_owner = None
_dir = None


def languages():
    return sorted(os.path.basename(os.path.dirname(os.path.dirname(p))) for p in
            glob.glob(os.path.join(env.REPO, 'lang', '*', 'LC_MESSAGES',
                'rktool.po')))


def catalogues():
    """ -> directory with the compiled catalogues below lang/ """
    global _dir, _owner
    if _dir is None or _owner != os.getpid():
        _owner = os.getpid()
        _workers.clear()
        _dir = tempfile.mkdtemp(prefix='rkvlang')
        atexit.register(cleanup)
        for l in languages():
            d = os.path.join(_dir, 'lang', l, 'LC_MESSAGES')
            os.makedirs(d)
            p = subprocess.run(['msgfmt', '-o', os.path.join(d, 'rktool.mo'),
                os.path.join(env.REPO, 'lang', l, 'LC_MESSAGES', 'rktool.po')],
                stderr=subprocess.PIPE)
            expect(p.returncode == 0, 'the catalogue of %s can not be compiled: '
                    '%s', l, p.stderr.decode())
    return _dir


def cleanup():
    global _dir
    if os.getpid() == _owner and _dir:
        for p in _workers.values():
            p.kill()
            p.wait()
        _workers.clear()
        shutil.rmtree(_dir, ignore_errors=True)
        _dir = None


def ask(lang, module, function, arg):
    d = catalogues()
    p = _workers.get(lang)
    if p is None or p.poll() is not None:
        e = dict(os.environ, RKV_LANG=lang)
        p = _workers[lang] = subprocess.Popen([sys.executable, os.path.abspath(
            __file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd=d,
            env=e)
    p.stdin.write(json.dumps([module, function, arg]).encode() + b'\n')
    p.stdin.flush()
    l = p.stdout.readline()
    if not l:
        raise RuntimeError('the process for language %s ended' % lang)
    return json.loads(l)


def main():
    import signal
    from rkv import runner
    signal.signal(signal.SIGPROF, runner._tick)
    env.die_with_parent()
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    for l in sys.stdin.buffer:
        module, function, arg = json.loads(l)
        m = importlib.import_module('rkv.checks.' + module)
        out.write(json.dumps(getattr(m, function)(arg)).encode() + b'\n')
        out.flush()


if __name__ == '__main__':
    main()
