#!/opt/venv/bin/python
"""
Builds and confirms the planted bugs of tools/bugs.py.

  plant.py make ID...     patch.diff, demo.sh and meta.json in seeded/ID, after
                          confirming in a scratch copy: builds, stable tests
                          pass, demo passes without and fails with the patch
  plant.py catch ID [C..] run checks (default: the property's own) on a
                          scratch copy with the patch, for several seeds
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [VERIF, HERE]
REPO = '/repo'
PY = '/opt/venv/bin/python'

PRELUDE = '''\
import copy, json, os, pickle, sys, tempfile, io
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import builtins
builtins._ = lambda s: s
import warnings
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, 'data.json')) as f:
    D = json.load(f)
from librksv import (algorithms, cashreg, depexport, depparser, key_store,
        receipt, utils, verification_state, verify, verify_receipt)
from librksv.verification_state import ClusterState


def load(ks):
    return key_store.KeyStore.readStoreFromJson(ks), utils.loadKeyFromJson(ks)


def run(dep, ks, state=None, idx=None):
    k, aes = load(ks)
    return verify.verifyDEP(copy.deepcopy(dep), k, aes, state, idx)


class Pool(object):
    """ does at once and in this process what a pool would do """
    def map_async(self, f, args):
        data = [pickle.loads(pickle.dumps(f(a))) for a in
                pickle.loads(pickle.dumps(list(args)))]
        class R(object):
            def get(self):
                return data
        return R()


def run_par(dep, ks, nprocs, chunksize, state=None, idx=None):
    k, aes = load(ks)
    p = depparser.IncrementalDEPParser.fromFd(io.StringIO(json.dumps(dep)), True)
    return verify.verifyParsedDEP(p, k, aes, state, idx, Pool(), nprocs, chunksize)


def fails(f, *exc):
    try:
        f()
    except (exc or (utils.RKSVException,)) as e:
        return e
    return None


def script(name, args, stdin=''):
    import subprocess
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8')
    for v in ('RKSV_DEP_CHUNKSIZE', 'RKSV_STATE_RECEIPT_IDS', 'LANGUAGE'):
        env.pop(v, None)
    return subprocess.run([sys.executable, os.path.join(os.getcwd(), name)]
        + args, input=stdin, env=env, stdout=subprocess.PIPE,
        stderr=subprocess.PIPE, universal_newlines=True)

'''

SH = '''\
#!/bin/bash
# exit 0: the property holds; non-zero: broken
export PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def scratch():
    d = tempfile.mkdtemp(prefix='plant-')
    sh('cp -a %s %s/repo' % (REPO, d))
    return d


def as_repo(d, cmd):
    """ runs cmd with the scratch copy mounted at /repo, in a namespace of its
    own """
    return sh("unshare -Urm bash -c 'mount --bind %s/repo /repo && cd /repo && %s'"
            % (d, cmd))


def make(b):
    out = os.path.join(VERIF, 'seeded', b['id'])
    if os.path.isdir(out):
        shutil.rmtree(out)
    os.makedirs(out)
    d = scratch()
    try:
        for fn, old, new in b['edits']:
            p = os.path.join(d, 'repo', fn)
            s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit('%s: %d matches in %s of %r' % (b['id'],
                    s.count(old), fn, old))
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git -C %s/repo diff' % d).stdout
        open(out + '/patch.diff', 'w').write(diff)
        json.dump({'property': b['prop'], 'needs': b['needs'],
            'what_it_breaks': b['what']}, open(out + '/meta.json', 'w'),
            indent=1)
        open(out + '/demo.sh', 'w').write(SH)
        os.chmod(out + '/demo.sh', 0o755)
        json.dump(b['data']() if 'data' in b else {},
                open(out + '/data.json', 'w'))
        open(out + '/demo.py', 'w').write(PRELUDE + b['demo'].strip('\n') + '\n')
        # which lines does it touch: not those of our own commits
        own = set()
        for fn in {e[0] for e in b['edits']}:
            for l in sh('git -C /repo blame -s 35e226b.. -- %s' % fn
                    ).stdout.splitlines():
                if not l.startswith('^'):
                    own.add(l.split(') ', 1)[-1])
        touched = [l[1:] for l in diff.splitlines() if l.startswith('-') and
            not l.startswith('---')]
        if any(l in own for l in touched if l.strip()):
            print(b['id'], 'TOUCHES OWN LINES')
        if not any(l.strip() for l in touched):
            print(b['id'], 'only adds lines')
        demo = as_repo(d, 'bash %s/demo.sh' % out)
        bad = demo.returncode
        t = as_repo(d, 'bash /opt/vp/build.sh && bash /opt/vp/test.sh %s/o.json' % d)
        res = json.load(open(d + '/o.json'))
        ok = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []))
        sh('git -C %s/repo checkout -- .' % d)
        clean = as_repo(d, 'bash %s/demo.sh' % out)
    finally:
        shutil.rmtree(d)
    print(b['id'], 'demo patched rc', bad, demo.stdout.strip().splitlines()[-1:],
        '| clean rc', clean.returncode, clean.stdout.strip()[-300:],
        '| tests rc', t.returncode, t.stdout.strip().splitlines()[-3:])


def catch(b, checks, seeds=(1, 2)):
    d = scratch()
    try:
        r = sh('git -C %s/repo apply %s/seeded/%s/patch.diff' % (d, VERIF, b))
        assert r.returncode == 0, r.stdout
        meta = json.load(open('%s/seeded/%s/meta.json' % (VERIF, b)))
        for c in checks or [meta['property']]:
            o = []
            for s in seeds:
                # from a copy: evidence and replays stay as they are
                r = sh('cp -a %s/rkv %s/bin %s/fixtures %s/known_findings.txt %s/ 2>/dev/null;'
                    'cd %s && mkdir -p evidence replays && RKV_REPO=%s/repo VERIF_SEED=%d bin/check %s quick'
                    % (VERIF, VERIF, VERIF, VERIF, d, d, d, s, c))
                o.append('%d%s' % (r.returncode, 'V' if 'VIOLATION property='
                    in r.stdout else ''))
                last = r.stdout
            print(b, c, o, flush=True)
            if '-v' in sys.argv:
                print(last[-1500:])
    finally:
        shutil.rmtree(d)


def main():
    import bugs
    byid = {b['id']: b for b in bugs.BUGS}
    args = [a for a in sys.argv[1:] if a != '-v']
    if args[0] == 'make':
        from concurrent.futures import ThreadPoolExecutor
        ids = args[1:] or [i for i in byid if not
            os.path.isdir(os.path.join(VERIF, 'seeded', i))]
        with ThreadPoolExecutor(3) as ex:
            list(ex.map(lambda i: make(byid[i]), ids))
    elif args[0] == 'catch':
        if args[1] == 'all':
            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor(4) as ex:
                list(ex.map(lambda i: catch(i, []),
                    sorted(os.listdir(VERIF + '/seeded'))))
        else:
            catch(args[1], args[2:])


if __name__ == '__main__':
    main()
