import copy
import importlib
import inspect
import json
import os
import signal

from .. import sim, cli, lang, runner
from ..paths import (run_path, keystore, load_state, dump, verdict, DEP, Err)
from ..ref import norm_state
from ..runner import Sub, expect, expect_eq
from ..strategies import world, path
from .c09 import defect, mangle
from . import c27

ID = 'C31'
QUICK = 1
TITLE = 'The message language never changes a verdict'
RULE = ('a case counts if an error was raised or a message shown; distinct by '
        'scenario')
ASSUMPTIONS = ['the catalogues are compiled by msgfmt, as in the Makefile',
        'the graphical program is not started']

LANGS = lang.languages()


def both(ctx, fn, arg):
    """ -> [(language, result there)], result in the language of the sources """
    arg = json.loads(json.dumps(arg))
    here = json.loads(json.dumps(globals()[fn](copy.deepcopy(arg))))
    return [(l, lang.ask(l, 'c31', fn, arg)) for l in LANGS], here


def named(e):
    """ which of the arguments of an error can be found in its message """
    args = e.__reduce__()[1]
    out = []
    for a in args if isinstance(args, tuple) else ():
        if isinstance(a, str) and len(a) >= 6:
            out.append(a in str(e))
        elif isinstance(a, int) and abs(a) > 999:
            out.append(str(a) in str(e))
        else:
            out.append(None)
    return out


def outcome(fn):
    try:
        v = fn()
        return ['ok', v if v is None or isinstance(v, (dict, list, str, int))
                else str(type(v))], None
    except Err as e:
        return ['error', type(e).__name__, named(e)], str(e)
    except Exception as e:
        return ['exception', type(e).__name__], None


# -------------------------------------------------------------- error classes

ARGS = ['', 'R{0}x%s7', 'wert ä€', '%(x)s %d {', '}{', 'AT0-{}-abc', '0x12abcd']


def gen_classes(d):
    out = []
    for _ in range(d.int(1, 6)):
        c = c27.CLASSES[d.int(0, len(c27.CLASSES) - 1)]
        ps = list(inspect.signature(c.__init__).parameters.values())[1:]
        args = []
        for p in ps:
            if p.kind not in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD):
                continue
            if p.default is not p.empty and d.bool(1, 4):
                break
            if p.default is None and d.bool(1, 4):
                args.append(None)
            elif 'idx' in p.name:
                args.append(d.int(0, 99999))
            else:
                args.append(d.choice(ARGS) if d.bool() else d.text(0, 12))
        out.append([c.__module__ + '.' + c.__name__, args])
    return {'es': out}


def job_classes(es):
    out = []
    for name, args in es:
        c = c27.BY_NAME.get(name)
        if c is None:
            out.append(None)
            continue
        def go():
            e = c(*args)
            c27.trips(e)
            raise e
        r, msg = outcome(go)
        out.append([r, msg])
    return out


def run_classes(case, ctx):
    rs, here = both(ctx, 'job_classes', case['es'])
    for l, r in rs:
        for (name, args), a, b in zip(case['es'], here, r):
            if a is None:
                continue
            ctx.label(name.split('.')[-1])
            expect_eq(b[0], a[0], '%s%r in %s (%r and %r)' % (name, tuple(args),
                l, a[1], b[1]))
            if a[1] != b[1]:
                ctx.label('translated')


# ------------------------------------------------------------------ scenarios

def gen_organic(d):
    return c27.gen_organic(d)


def job_organic(case):
    from ..paths import verify_receipt, receipt, utils, algorithms
    w = sim.World(case['w'])
    k = case['k']
    ks = w.keystore(with_key=True, trust='all')
    if k == 'receipt':
        rv = verify_receipt.ReceiptVerifier.fromKeyStore(keystore(ks))
        s = case['s']
        R = receipt.Receipt
        pf, vf = {'jws': (R.fromJWSString, rv.verifyJWS),
                'qr': (R.fromBasicCode, rv.verifyBasicCode),
                'ocr': (R.fromOCRCode, rv.verifyOCRCode),
                'csv': (R.fromCSV, rv.verifyCSV)}[case['src']]
        fns = [lambda: back(pf(s)), lambda: back(vf(s))]
    elif k == 'store':
        fns = [lambda: keystore(case['js']).writeStoreToJson()]
    elif k == 'state':
        fns = [lambda: norm_state(load_state(case['js']).writeStateToJson())]
    elif k in ('dep', 'parse'):
        fns = [lambda: c27.keep(run_path(copy.deepcopy(case['js']), ks, w.aes,
            p)) for p in (DEP, {'p': 'dict', 'chunk': 2}, {'p': 'file',
                'chunk': 2})]
    else:
        fns = [lambda: repr(utils.loadKeyFromJson({'base64AESKey': case[
            'key']})), lambda: algorithms.ALGORITHMS['R1'].verifyKey(
                case['key'].encode('utf-8'))]
    return [outcome(f) for f in fns]


def back(r):
    rec, pre = r
    return rec.toJWSString(pre if isinstance(pre, str) else pre.id())


def run_organic(case, ctx):
    rs, here = both(ctx, 'job_organic', case)
    compare(ctx, rs, here)


def compare(ctx, rs, here):
    for l, r in rs:
        for a, b in zip(here, r):
            expect_eq(b[0], a[0], 'outcome in %s (%r and %r)' % (l, a[1], b[1]))
            if a[1] != b[1]:
                ctx.label('translated')
    if all(a[0][0] == 'ok' for a in here):
        ctx.trivial()
    for a in here:
        ctx.label(a[0][1] if a[0][0] != 'ok' else 'ok')


def gen_dep(d):
    sp = world(d, min_recs=1, max_recs=8)
    op = defect(d, sp)
    w = sim.World(sp)
    dep = w.dep()
    if d.bool(1, 3):
        mangle(d, dep)
    return {'w': sp, 'dep': dep, 'path': path(d, len(w.jws)), 'key': d.bool(),
            'idx': d.choice([None, None, None, 0, 1, 5])}


def job_dep(case):
    w = sim.World(case['w'])

    def go():
        r = run_path(case['dep'], w.keystore(trust='all'), w.aes if case['key']
                else None, case['path'], idx=case['idx'])
        if r[0] != 'ok':
            raise r[2]
        return r[1]
    return [outcome(go)]


def run_dep(case, ctx):
    rs, here = both(ctx, 'job_dep', case)
    if case['path'].get('nprocs', 1) > 1 and here[0][0][0] == 'error':
        # which of several defects is found first is decided by the workers
        here[0][0] = here[0][0][:1]
        for l, r in rs:
            r[0][0] = r[0][0][:1]
        here[0][0].append('*')
        for l, r in rs:
            r[0][0].append('*')
    compare(ctx, rs, here)


# ------------------------------------------------- everything else, translated

_OTHERS = None
NOT = {'C28', 'C29', 'C30', 'C31'}      # these read the messages
HEAVY = {('C16', 'big'), ('C09', 'big'), ('C27', 'pool')}


def others():
    global _OTHERS
    if _OTHERS is None:
        _OTHERS = {}
        for i in range(1, 28):
            m = importlib.import_module('rkv.checks.c%02d' % i)
            for s in m.SUBS:
                if m.ID not in NOT and not s.name.startswith('real') and (m.ID,
                        s.name) not in HEAVY:
                    _OTHERS[m.ID + ' ' + s.name] = s
    return _OTHERS


def gen_others(d):
    o = others()
    n = d.choice(sorted(o))
    return {'name': n, 'case': o[n].gen(d)}


def job_others(case):
    s = others().get(case['name'])
    if s is None:
        return None
    ctx, err = runner.run_case(s, case['case'])
    return err


def run_others(case, ctx):
    ctx.label(case['name'])
    for l in LANGS:
        err = lang.ask(l, 'c31', 'job_others', case)
        if err:
            here = job_others(copy.deepcopy(case))
            expect(here, 'only in %s: %s', l, err)


# ------------------------------------------------------------------- programs

FORMS = {'jws': lambda j: j, 'qr': sim.qr, 'ocr': sim.ocr, 'csv': sim.csv}
COMMANDS = ['verify', 'verify', 'verify', 'state', 'state', 'keys', 'receipt',
        'single', 'single', 'convert', 'merge', 'split', 'extract', 'usage']


def gen_cli(d):
    sp = world(d, min_recs=1, max_recs=6, ndev=1, multi=False, id_style='csv')
    if d.bool():
        defect(d, sp)
    n = len(sp['recs'])
    return {'w': sp, 'cmd': d.choice(COMMANDS), 'a': d.int(0, 99), 'n': d.int(0,
        n - 1), 'trunc': d.bool(1, 4), 'cut': d.int(0, 9999), 'form': d.choice(
            sorted(FORMS)), 'out': d.choice(sorted(FORMS) + ['url', 'xyz']),
        'lines': d.list(0, 4, lambda i: [d.int(0, n - 1), d.bool(1, 3)]),
        'args': d.list(0, 4, lambda i: d.choice(['1', 'x', 'par', 'state',
            'create', 'jws', 'list', 'del']))}


def job_cli(case):
    """ -> what a program did, other than its messages """
    w = sim.World(case['w'])
    cmd, a = case['cmd'], case['a']
    with cli.scratch() as tmp:
        raw = dump(w.dep())
        raw = raw.encode() if isinstance(raw, str) else raw
        ks = json.dumps(w.keystore(with_key=True, trust='all')).encode()
        f = FORMS[case['form']]
        lines = ''.join((f(w.jws[i]) if not bad else f(w.jws[i])[:-95]) + '\n'
                for i, bad in case['lines']).encode()
        if case['trunc']:
            if a % 2:
                raw = raw[:case['cut'] % len(raw)]
            else:
                ks = ks[:case['cut'] % len(ks)]
        dep = cli.write(tmp, 'dep.json', raw)
        kf = cli.write(tmp, 'ks.json', ks)
        sf = os.path.join(tmp, 'state.json')
        runs = []
        cat = os.path.abspath('lang')
        # programs look for the catalogues in the working directory
        if os.path.isdir(cat) and os.path.dirname(cat) != cli.env.REPO:
            os.symlink(cat, os.path.join(tmp, 'lang'))

        def go(script, args, stdin=b'', data=True):
            r = cli.run(script, args, stdin, cwd=tmp)
            runs.append([script, [str(x).replace(tmp, '') for x in args], r.rc,
                type(r.exc).__name__, r.text if data else len(r.text.split(
                    '\n')), r.exc is not None or bool(r.text)])

        if cmd == 'verify':
            st = b'{"cashRegisters": [], "usedReceiptIds": {"backendType": ' \
                b'"USED_RECEIPT_IDS_UNIQUE", "backendData": []}}'
            if a % 3:
                go('verify.py', [kf, dep])
            else:
                r = cli.run('verify.py', ['state', 'chunksize', a % 4, kf, dep],
                        st)
                runs.append([r.rc, type(r.exc).__name__, norm_state(json.loads(
                    r.text)) if r.out else None])
        elif cmd == 'state':
            go('verification_state.py', [sf, 'create'])
            go('verification_state.py', [sf, 'show'], data=False)
            go('verification_state.py', [sf, 'addCashRegister'])
            go('verification_state.py', [sf, 'updateCashRegister', a % 2, dep])
            go('verification_state.py', [sf, 'show'], data=False)
            go('verification_state.py', [sf, ['addCashRegister',
                'deleteCashRegister'][a % 2]] + [5] * (a % 2))
            go('verification_state.py', [sf, 'fromArbitraryReceipt', case[
                'form'], f(w.jws[case['n']])])
        elif cmd == 'keys':
            go('key_store.py', [kf, 'list'])
            go('key_store.py', [kf, 'showSymmetricKey'], data=False)
            go('key_store.py', [kf, 'delSymmetricKey'])
            go('key_store.py', [kf, 'showSymmetricKey'], data=False)
            go('key_store.py', [kf, 'toLegacyIni'])
            go('key_store.py', [kf, 'add', dep], data=False)
        elif cmd == 'receipt':
            go('receipt.py', [case['form'], case['out']], lines, case['out'] in
                    FORMS or case['out'] == 'url')
        elif cmd == 'single':
            r = cli.run('verify_receipt.py', [case['form'], kf], lines, cwd=tmp)
            runs.append([r.rc, type(r.exc).__name__, r.text.count('\n'), [c for
                c in r.text if c.isdigit()][-2:]])
        elif cmd == 'convert':
            if a % 2:
                go('convert.py', ['json2csv'], raw)
            else:
                go('convert.py', ['csv2json'], lines)
        elif cmd == 'merge':
            go('merge.py', [dep, dep])
        elif cmd == 'split':
            go('split.py', [a % 3, dep, os.path.join(tmp, 'out')])
        elif cmd == 'extract':
            os.mkdir(os.path.join(tmp, 'certs'))
            go('cert_extract.py', [os.path.join(tmp, 'certs')], raw)
        else:
            s = ['verify.py', 'convert.py', 'merge.py', 'split.py',
                    'cert_extract.py', 'receipt.py', 'verify_receipt.py'][a % 7]
            go(s, case['args'], data=False)
        return [runs, sorted((n, norm(v)) for n, v in cli.tree(tmp).items()
            if not n.startswith('lang'))]


def norm(v):
    try:
        js = json.loads(v.decode('utf-8'))
        if 'usedReceiptIds' in js:
            js = norm_state(js)
        return json.dumps(js, sort_keys=True)
    except (ValueError, TypeError, KeyError):
        return v.decode('latin-1')


def run_cli(case, ctx):
    rs, here = both(ctx, 'job_cli', case)
    ctx.label(case['cmd'])
    for l, r in rs:
        expect_eq(r[0], here[0], 'what the program did in %s' % l)
        expect_eq(r[1], here[1], 'files after the program ran in %s' % l)


SUBS = [Sub('classes', gen_classes, run_classes, 8000),
        Sub('organic', gen_organic, run_organic, 7000),
        Sub('dep', gen_dep, run_dep, 5000),
        Sub('others', gen_others, run_others, 5000),
        Sub('cli', gen_cli, run_cli, 3000)]
