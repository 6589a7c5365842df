import copy
import importlib
import inspect
import pickle
import pkgutil

from .. import env
import librksv

from .. import sim
from ..paths import (run_path, keystore, load_state, verdict, real_pool, DEP,
        Err, receipt, algorithms, depparser, key_store, verification_state,
        verify_receipt, utils)
from ..runner import Sub, expect, expect_eq
from ..strategies import world, path
from ..ref import ref_verify, EXC
from . import c02, c05
from .c09 import defect, mangle

ID = 'C27'
TITLE = 'Errors reach the caller unchanged, also from worker processes'
RULE = ('a case counts if at least one error was raised or created and passed '
        'on; distinct by class and arguments / scenario and paths')
ASSUMPTIONS = ['with several defects in one DEP, worker processes may report '
        'another one of them first (a wrong turnover counter is also the base '
        'of the next package); full equality is demanded for one defect']


def classes():
    """ every error class of the library """
    for m in pkgutil.iter_modules(librksv.__path__):
        if not m.ispkg:
            try:
                importlib.import_module('librksv.' + m.name)
            except Exception:       # GUI and image parts need other packages
                pass
    todo, out = [Err], []
    while todo:
        c = todo.pop()
        if c not in out:
            if c.__module__.startswith('librksv.'):
                out.append(c)
            todo += c.__subclasses__()
    return sorted(out, key=lambda c: (c.__module__, c.__name__))


CLASSES = classes()
BY_NAME = {(c.__module__ + '.' + c.__name__): c for c in CLASSES}


def facts(e):
    d = {k: v for k, v in vars(e).items() if not k.startswith('_')}
    return (type(e), str(e), e.args, d)


def same(a, b, what):
    fa, fb = facts(a), facts(b)
    for x, y, n in zip(fa, fb, ('class', 'text', 'args', 'details')):
        expect_eq(y, x, '%s of %s %s' % (n, type(a).__name__, what))


def trips(e):
    for p in range(2, pickle.HIGHEST_PROTOCOL + 1):
        f = pickle.loads(pickle.dumps(e, p))
        same(e, f, 'after pickling with protocol %d' % p)
        same(e, pickle.loads(pickle.dumps(f, p)), 'after pickling twice')
    same(e, copy.copy(e), 'after copying')
    same(e, copy.deepcopy(e), 'after copying deeply')
    same(e, pickle.loads(pickle.dumps((False, [e]))) [1][0], 'inside a result')


# ------------------------------------------------------------------ classes

POOL = '{}{0}%s%d%"\\\'\n\t äß€𝄞_.-0aZ'


def arg(d):
    k = d.int(0, 9)
    if k < 6:
        return d.text(0, 12, '', POOL)
    if k < 8:
        return d.text(0, 30)
    return d.choice(['', '{0} {1} {2}', '%(x)s', 'R1', '0x1a', '{'])


def gen_classes(d):
    out = []
    for _ in range(d.int(1, 4)):
        c = CLASSES[d.int(0, len(CLASSES) - 1)]
        ps = [p for p in inspect.signature(c.__init__).parameters.values()][1:]
        args = []
        for p in ps:
            if p.kind not in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD):
                continue
            if p.default is not p.empty:
                if d.bool(1, 4):
                    break
                if p.default is None and d.bool(1, 4):
                    args.append(None)
                    continue
                if 'idx' in p.name:
                    args.append(d.int(0, 99))
                    continue
            args.append(d.int(-5, 99) if p.name == 'idx' else arg(d))
        out.append([c.__module__ + '.' + c.__name__, args,
            d.bool(1, 5)])
    return {'es': out}


def run_classes(case, ctx):
    for name, args, kw in case['es']:
        c = BY_NAME.get(name)
        if c is None:
            ctx.trivial()
            continue
        if kw:
            ps = [p.name for p in inspect.signature(c.__init__
                ).parameters.values()][1:]
            e = c(**dict(zip(ps, args)))
        else:
            e = c(*args)
        ctx.label(name.split('.')[-1])
        trips(e)
        expect_eq(e.message, str(e), 'message attribute')
        for a in args if args[:1] != [None] else ():
            if isinstance(a, str):
                expect(a in str(e), 'the text of %s(%r) does not name %r: %r',
                        name, args, a, str(e))
        try:
            raise e
        except Err as f:
            trips(f)


# ------------------------------------------------------------------ organic

def gen_organic(d):
    sp = world(d, min_recs=1, max_recs=4)
    defect(d, sp)
    w = sim.World(sp)
    k = d.choice(['receipt', 'receipt', 'store', 'state', 'dep', 'parse',
        'key'])
    case = {'w': sp, 'k': k}
    j = w.jws[d.int(0, len(w.jws) - 1)]
    if k == 'receipt':
        src = d.choice(['jws', 'qr', 'ocr', 'csv'])
        s = {'jws': lambda j: j, 'qr': sim.qr, 'ocr': sim.ocr, 'csv': sim.csv
                }[src](j)
        for _ in range(d.int(0, 2)):
            p = d.int(0, len(s))
            s = s[:p] + d.choice(['', '_', '.', 'x', '{0}', '%s', 'ü', '"']) \
                    + s[p + d.int(0, 3):]
        case.update(src=src, s=s)
    elif k == 'store':
        js = w.keystore(with_key=True, trust='all')
        case['js'] = damage(d, js)
    elif k == 'state':
        case['js'] = damage(d, {'cashRegisters': [{'startReceiptJWS': w.jws[0],
            'lastReceiptJWS': j, 'lastTurnoverCounter': 5,
            'needRestoreReceipt': False, 'chainNextTo': None}],
            'usedReceiptIds': {'backendType': d.choice(['USED_RECEIPT_IDS_'
                'UNIQUE', 'x', 'unique']), 'backendData': ['a{0}']}})
    elif k in ('dep', 'parse'):
        case['js'] = damage(d, w.dep())
    elif k == 'key':
        case['key'] = d.choice(['', 'AAAA', '??', '{0}', 'x' * 43])
    return case


def damage(d, js):
    """ replaces some nodes of a JSON document """
    js = copy.deepcopy(js)
    for _ in range(d.int(1, 2)):
        at, key = None, None
        cur = js
        while isinstance(cur, (dict, list)) and cur:
            ks = sorted(cur) if isinstance(cur, dict) else range(len(cur))
            if at is not None and d.bool(1, 4):
                break
            at, key = cur, ks[d.int(0, len(ks) - 1)]
            cur = cur[key]
        if at is None:
            break
        op = d.int(0, 5)
        if op == 0:
            del at[key]
        elif op == 1 and isinstance(at, dict):
            at[d.choice(['{0}', '%s', 'é', 'x'])] = at.pop(key)
        elif op == 2 and isinstance(cur, str):
            at[key] = cur[:len(cur) // 2] + d.choice(['{0}', '%s', '', 'é'])
        else:
            at[key] = d.choice([None, 5, 'x{0}', '%s', [], {}, True, ['x'],
                {'y': 1}, 1.5, -3])
    return js


def run_organic(case, ctx):
    w = sim.World(case['w'])
    k = case['k']
    ks = w.keystore(with_key=True, trust='all')
    fns = []
    if k == 'receipt':
        rv = verify_receipt.ReceiptVerifier.fromKeyStore(keystore(ks))
        s = case['s']
        R = receipt.Receipt
        pf, vf = {'jws': (R.fromJWSString, rv.verifyJWS),
                'qr': (R.fromBasicCode, rv.verifyBasicCode),
                'ocr': (R.fromOCRCode, rv.verifyOCRCode),
                'csv': (R.fromCSV, rv.verifyCSV)}[case['src']]
        fns = [lambda: pf(s), lambda: vf(s)]
    elif k == 'store':
        fns = [lambda: keystore(case['js'])]
    elif k == 'state':
        fns = [lambda: load_state(case['js'])]
    elif k in ('dep', 'parse'):
        fns = [lambda: keep(run_path(copy.deepcopy(case['js']), ks, w.aes,
            p)) for p in (DEP, {'p': 'dict', 'chunk': 2}, {'p': 'file',
                'chunk': 2})]
    else:
        fns = [lambda: utils.loadKeyFromJson({'base64AESKey': case['key']}),
                lambda: algorithms.ALGORITHMS['R1'].verifyKey(
                    case['key'].encode('utf-8'))]
    some = False
    for f in fns:
        try:
            f()
        except Err as e:
            some = True
            ctx.label(type(e).__name__)
            trips(e)
        except Exception:
            ctx.label('foreign')    # other properties decide whether it may be
    if not some:
        ctx.trivial()


def keep(v):
    if v[0] != 'ok':
        raise v[2]


# ----------------------------------------------------------------- parallel

def gen_par(d, real=False):
    sp = world(d, min_recs=2, max_recs=24 if real else 12, multi=d.bool())
    op = d.choice(['delta', 'chain', 'dup', 'sig', 'none', 'mangle', 'reg',
        'any', 'kind'])
    recs = sp['recs']
    n = len(recs)
    i = d.int(1, n - 1)
    o = {}
    if op == 'delta':
        o['delta'] = d.choice([1, -1, 100])
    elif op == 'chain':
        o['chain'] = sim.chain_value(d.text(1, 4))
    elif op == 'dup':
        recs[i]['id'] = recs[d.int(0, i - 1)]['id']
    elif op == 'sig':
        o['sig'] = d.choice(['AAAA', 'A' * 86])
    elif op == 'reg':
        o['reg'] = sp['reg'] + 'x'
        i = n - 1
    elif op == 'any':
        defect(d, sp)
    elif op == 'kind':
        i = 0
        recs[0]['k'] = d.choice('DR')
    if o:
        recs[i]['o'] = dict(recs[i].get('o') or {}, **o)
    dep = sim.World(sp).dep()
    if op == 'mangle':
        mangle(d, dep)
    return {'w': sp, 'dep': dep, 'op': op, 'real': real, 'paths': [
        dict(path(d, n, False, ['dict', 'file', 'full']),
            pool='real' if real else 'pickle', nprocs=d.choice([1, 2, 3]),
            chunk=d.int(1, n)) for _ in range(2)]}


def run_par(case, ctx):
    w = sim.World(case['w'])
    ks = w.keystore(trust='all')
    a = run_path(copy.deepcopy(case['dep']), ks, w.aes, DEP)
    g = [x for x in case['dep']['Belege-Gruppe'] if x.get('Belege-kompakt')]
    if len(g) > 1 and any(x.get('Signaturzertifikat') == '' for x in g):
        ctx.trivial()       # F20, see C09
        return
    ctx.label(case['op'], a[0] if a[0] == 'ok' else a[1])
    if a[0] == 'ok':
        ctx.trivial()
        return
    if not isinstance(a[2], Err):
        ctx.trivial()
        return
    for p in case['paths']:
        b = run_path(copy.deepcopy(case['dep']), ks, w.aes, p)
        expect_eq(b[0], 'bad', 'verdict with %r' % (p,))
        expect(isinstance(b[2], Err), 'with %r the error is %r instead of %r',
                p, b[2], a[2])
        trips(b[2])
        if case['op'] in ('chain', 'dup', 'sig', 'reg', 'kind'):
            same(a[2], b[2], 'with %r' % (p,))
        else:
            q = run_path(copy.deepcopy(case['dep']), ks, w.aes, dict(p,
                pool=None, nprocs=1))
            expect_eq(q[0], 'bad', 'verdict without workers for %r' % (p,))
            if a[1] == b[1] and getattr(a[2], 'receipt', 0) == getattr(b[2],
                    'receipt', 0):
                expect(str(b[2]) in (str(a[2]), str(q[2])), 'with %r the text '
                        'is %r instead of %r', p, str(b[2]), str(a[2]))


# -------------------------------------------------------------------- named

def gen_named(d):
    k = d.int(0, 3)
    if k == 0:
        c = c02.gen(d)
        w = sim.World(c['w'])
        w.jws[c['i']] = c['jws']
        return {'w': c['w'], 'dep': w.dep(), 'path': path(d, len(w.jws))}
    if k == 1:
        sp = c05.spec(c05.gen(d))
    else:
        sp = world(d, min_recs=1, max_recs=8)
        defect(d, sp)
    w = sim.World(sp)
    return {'w': sp, 'dep': w.dep(), 'path': path(d, len(w.jws))}


def run_named(case, ctx):
    """ an error about a receipt names the first receipt that is wrong """
    w = sim.World(case['w'])
    ks = w.keystore(trust='all')
    r = ref_verify(case['dep'], ks, w.aes)
    if r[0] != 'bad' or r[2] is None or r[1].startswith('parse:'):
        ctx.trivial()
        return
    ctx.label(r[1])
    p = case['path']
    for q in (DEP, dict(p, pool=None, nprocs=1) if p['p'] != 'dep' else DEP):
        e = run_path(copy.deepcopy(case['dep']), ks, w.aes, q)
        expect_eq(e[0], 'bad', 'verdict')
        # an error of another kind may be found first
        if e[1] == EXC[r[1]]:
            expect_eq(e[2].receipt, r[2], 'receipt named by %s' % e[1])
            expect(r[2] in str(e[2]), 'the text of %s does not name the '
                    'receipt: %s', e[1], str(e[2]))


def boom(a):
    name, args = a
    raise BY_NAME[name](*args)


def run_pool(case, ctx):
    """ errors raised in a real worker process """
    pool = real_pool(2)
    for name, args, kw in case['es']:
        if name not in BY_NAME:
            ctx.trivial()
            continue
        e = BY_NAME[name](*args)
        ctx.label(name.split('.')[-1])
        try:
            pool.map_async(boom, [(name, args)]).get(120)
        except Exception as f:
            same(e, f, 'from a worker process')
        else:
            expect(False, 'no error from a worker process')


SUBS = [Sub('classes', gen_classes, run_classes, 4000),
        Sub('organic', gen_organic, run_organic, 4000),
        Sub('named', gen_named, run_named, 4000),
        Sub('parallel', gen_par, run_par, 2500),
        Sub('pool', gen_classes, run_pool, 800),
        Sub('real', lambda d: gen_par(d, True), run_par, 96)]
