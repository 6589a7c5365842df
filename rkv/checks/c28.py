import copy
import json
import os

from .. import sim, cli
from ..paths import (run_path, load_state, dump_state, keystore, dump, verdict,
        verification_state, DEP, Err, utils, UNIQUE, SORTED)
from ..gen import D
from ..ref import norm_state
from ..runner import Sub, expect, expect_eq
from ..strategies import world, path, devices, Walk, Ids, reg_id, BASES
from .c09 import defect, mangle
from .c27 import damage

ID = 'C28'
QUICK = 1
TITLE = 'The verification command mirrors the library verdict'
RULE = ('a case counts if the command was run on a DEP (not only shown how to '
        'be used); distinct by history, files and command lines')
ASSUMPTIONS = ['a wrong command line only shows the usage; its exit status is '
        'not judged']

NAMES = ['ks.json', 'key store.json', 'größe.json', '%s{}.json']
EMPTY = {'cashRegisters': [], 'usedReceiptIds': {'backendType':
    'USED_RECEIPT_IDS_UNIQUE', 'backendData': []}}


def options(d, n):
    """ chunk size, processes and so on of a command line """
    o = {'par': d.weighted(6, None, 1, 1, 2, 2, 1, 3),
            'chunk': d.choice([None, None, 0, 1, 2, 3, d.int(0, n + 1), n,
                100000]),
            'env': d.choice([None, None, None, 0, 1, 3]), 'json': d.bool(1, 4),
            'name': d.choice(NAMES),
            'layout': {'order': d.int(0, 5), 'indent': d.choice([None, 1]),
                'ascii': d.bool(), 'extra': d.bool(1, 4)}}
    return o


def gen(d, real=False):
    nreg = d.weighted(4, 1, 2, 2, 1, 3)
    closed = d.bool() or nreg > 1
    ndev = d.int(1, 2)
    spec = {'closed': closed, 'devs': devices(d, closed, ndev), 'reg': reg_id(d),
            'size': d.choice([5, 8, 16]), 'aes': d.int(0, 2), 'multi': d.bool()}
    ids = Ids(d)
    t = d.choice(BASES[:-1])
    regs = []
    for i in range(nreg):
        w = Walk(d, ndev, spec['size'], ids, t=t, broken_rate=d.choice([0, 3]))
        recs = d.list(1, 8, w.next)
        t = recs[0]['t']
        regs.append(recs)
    # the parts of the registers, in an order that respects the cluster
    parts, todo = [], []
    for i, recs in enumerate(regs):
        n = len(recs)
        cuts = [0] + sorted({d.int(1, n - 1) for _ in range(d.int(0, 2))}
                if n > 1 else []) + [n]
        todo.append([[i, a, b] for a, b in zip(cuts, cuts[1:])])
    started = 0
    while any(todo):
        c = [i for i in range(nreg) if todo[i] and i <= started]
        i = c[d.int(0, len(c) - 1)]
        p = todo[i].pop(0)
        if p[1] == 0:
            started = i + 1
        parts.append(p)
    steps = []
    for r, a, b in parts:
        n = b - a
        kinds = []
        for _ in range(d.weighted(3, 0, 3, 1, 1, 2)):
            kinds.append(d.choice(['defect', 'defect', 'mangle', 'trunc',
                'nofile', 'store', 'state', 'idx', 'key']))
        kinds.append('good')
        for k in kinds:
            s = {'k': k, 'r': r, 'a': a, 'b': b, 'o': options(d, n)}
            if k == 'defect':
                s2 = json.loads(json.dumps(dict(spec, recs=regs[r])))
                defect(d, dict(s2, recs=s2['recs'][a:b]))
                s['recs'] = s2['recs']
            elif k in ('mangle', 'store', 'state'):
                s['seed'] = [d.int(0, 2 ** 16) for _ in range(40)]
            elif k == 'trunc':
                s['seed'] = [d.int(0, 2 ** 16)]
            elif k == 'idx':
                s['idx'] = d.choice([-1, 0, 1, 2, 5, 'continue', None])
            s['how'] = d.choice(['n', 'continue', 'none', 'n'])
            s['passthrough'] = d.bool(3, 4)
            steps.append(s)
            if real and len(steps) >= 3:
                break
        if real and len(steps) >= 3:
            break
    return {'w': spec, 'regs': regs, 'steps': steps, 'real': real,
            'first': d.bool(), 'key': d.bool(3, 4)}


class Seeded(D):
    """ drawn numbers inside of a case, as a source of choices """
    def _draw(self, n):
        i = len(self.rec)
        v = self.replay[i] % max(1, n) if i < len(self.replay) else 0
        self.rec.append(v)
        return v


def draws(seed):
    return Seeded(replay=list(seed))


def run(case, ctx):
    spec = case['w']
    real = case['real']
    with cli.scratch() as tmp:
        state = None
        if case['first']:
            r = cli.run('verify.py', ['state'], real=real)
            expect_eq(r.rc, 0, 'exit status of "verify.py state"')
            expect_eq(norm_state(json.loads(r.text)), norm_state(EMPTY),
                    'empty state')
            state = r.text
        else:
            state = json.dumps(EMPTY)
        count = 0               # registers in the state
        worlds = build(spec, case['regs'])
        for i, s in enumerate(case['steps']):
            state, count = step(case, ctx, tmp, i, s, worlds, state, count)
        left = sorted(cli.tree(tmp))
        expect(all(x in NAMES + ['dep.json'] for x in left), 'unexpected files '
                '%r', left)


def build(spec, regs):
    out, prev = [], None
    for recs in regs:
        w = sim.World(dict(spec, recs=recs), prev.jws[0] if prev else None)
        out.append(w)
        prev = w
    return out


def cut(w, a, b):
    p = copy.copy(w)
    p.jws, p.recdev = w.jws[a:b], w.recdev[a:b]
    return p.dep()


def step(case, ctx, tmp, i, s, worlds, state, count):
    k, o = s['k'], s['o']
    w = worlds[s['r']]
    if k == 'defect':
        w = sim.World(dict(case['w'], recs=s['recs']), worlds[s['r'] - 1].jws[0]
                if s['r'] else None)
    dep = cut(w, s['a'], s['b'])
    if k == 'mangle':
        mangle(draws(s['seed']), dep)
    g = [x for x in dep.get('Belege-Gruppe') or [] if isinstance(x, dict) and
            x.get('Belege-kompakt')]
    if len(g) > 1 and any(x.get('Signaturzertifikat') == '' for x in g):
        ctx.label('F20')
        dep = {'Belege-Gruppe': [g[0]]}
    raw = dump(dep, o['layout'])
    trunc = k == 'trunc'
    if trunc:
        raw = raw[:s['seed'][0] % len(raw)]
    ksjs = w.keystore(with_key=case['key'] != (k == 'key'), trust='all')
    if k == 'store':
        ksjs = damage(draws(s['seed']), ksjs)
    stxt = state
    if k == 'state':
        stxt = json.dumps(damage(draws(s['seed']), json.loads(state)))

    # which register, and how that is written
    new = s['a'] == 0
    last = s['r'] == count - 1
    idx, arg = None, []
    if new:
        if s['how'] == 'n':
            idx, arg = s['r'], [s['r']]
    elif s['how'] == 'continue' and last:
        idx, arg = s['r'], ['continue']
    else:
        idx, arg = s['r'], [s['r']]
    if k == 'idx':
        x = s['idx']
        idx = x
        arg = [] if x is None else [x]
        if x == 'continue':
            idx = len(json.loads(state)['cashRegisters']) - 1
    passthrough = s['passthrough'] or len(case['steps']) > 1 and not (
            k != 'good' and case['first'])
    if not passthrough:
        if arg == ['continue']:
            arg, idx = [], None

    # what the library says
    st = None

    def go():
        st = load_state(json.loads(stxt)) if passthrough else None
        store = keystore(ksjs)
        try:
            key = utils.loadKeyFromJson(ksjs)
        except (TypeError, AttributeError, ValueError) as e:
            raise Err(str(e))       # any error will do for a key like that
        r = run_path(copy.deepcopy(dep), store, key, DEP, st, idx)
        if r[0] != 'ok':
            raise r[2]
        return r[1]
    want = verdict(go)
    if trunc or k == 'nofile':
        want = ('bad', k, None)

    argv = ['state'] if passthrough else []
    argv += arg
    if o['par'] is not None:
        argv += ['par', o['par']]
    if o['chunk'] is not None:
        argv += ['chunksize', o['chunk']]
    if o['json']:
        argv += ['json']
    argv += [cli.write(tmp, o['name'], json.dumps(ksjs, ensure_ascii=False)),
            cli.write(tmp, 'dep.json', raw)]
    if k == 'nofile':
        argv[-1 - s['a'] % 2] += '.missing'
    before = cli.tree(tmp)
    environ = None if o['env'] is None else {'RKSV_DEP_CHUNKSIZE':
            str(o['env'])}
    r = cli.run('verify.py', argv, stxt.encode('utf-8') if passthrough else b'',
            environ, case['real'])
    what = 'step %d (%s), verify.py %r: %r' % (i, k, argv[:-2], r)
    ctx.label(k, want[0], 'par' if (o['par'] or 1) > 1 else 'seq',
            'state' if passthrough else 'single')
    expect_eq(cli.tree(tmp), before, 'files after ' + what)
    if want[0] == 'ok':
        expect_eq(r.rc, 0, 'exit status of ' + what)
        expect(b'Verification successful.' in r.err, 'no success in ' + what)
        if passthrough:
            got = json.loads(r.text)
            expect_eq(norm_state(got), want[1], 'state from ' + what)
        else:
            expect_eq(r.out, b'', 'output of ' + what)
    else:
        expect(r.rc != 0, 'no error status although the library says %r: %s',
                want[1:], what)
        expect_eq(r.out, b'', 'output of ' + what)
        expect(b'uccessful' not in r.err, 'success reported: %s', what)
        if not case['real'] and want[2] is not None and k not in ('defect',
                'mangle', 'state', 'store'):
            expect_eq(type(r.exc).__name__, want[1], 'error of ' + what)
    if k == 'good' and passthrough:
        expect_eq(want[0], 'ok', 'library verdict on a conforming part (%r)' %
                (want[1:],))
        return r.text, max(count, s['r'] + 1)
    if k == 'good':     # not recorded by the command itself
        l = run_path(copy.deepcopy(dep), keystore(ksjs),
                w.aes if case['key'] else None, DEP,
                load_state(json.loads(state)), None if new else s['r'])
        expect_eq(l[0], 'ok', 'library verdict on a conforming part')
        return json.dumps(l[1]), max(count, s['r'] + 1)
    return state, count


# -------------------------------------------------------------------- usage

def gen_usage(d):
    sp = world(d, min_recs=1, max_recs=3)
    return {'w': sp, 'op': d.choice(['few', 'many', 'par0', 'parx', 'chunkneg',
        'chunkx', 'none', 'swap', 'parneg', 'unknown', 'continue2']),
        'state': d.bool(), 'o': options(d, 3)}


def run_usage(case, ctx):
    w = sim.World(case['w'])
    op = case['op']
    ctx.label(op)
    ctx.trivial()
    with cli.scratch() as tmp:
        ks = cli.write(tmp, 'ks.json', json.dumps(w.keystore(with_key=True,
            trust='all')))
        dep = cli.write(tmp, 'dep.json', dump(w.dep()))
        head = ['state'] if case['state'] else []
        argv = {'few': [ks], 'many': [ks, dep, dep], 'par0': ['par', 0, ks, dep],
                'parx': ['par', 'x', ks, dep], 'parneg': ['par', -2, ks, dep],
                'chunkneg': ['chunksize', -1, ks, dep],
                'chunkx': ['chunksize', '1x', ks, dep], 'none': None,
                'swap': ['chunksize', 2, 'par', 2, ks, dep],
                'unknown': ['frobnicate', ks, dep],
                'continue2': ['continue', 'continue', ks, dep]}[op]
        argv = [] if argv is None else head + argv
        r = cli.run('verify.py', argv, json.dumps(EMPTY).encode())
        what = 'verify.py %r: %r' % (argv, r)
        expect_eq(r.out, b'', 'output of ' + what)
        expect(b'uccessful' not in r.err, 'success reported: %s', what)
        expect(r.err, 'nothing reported: %s', what)


# ------------------------------------- the way used IDs are kept (RKSV_STATE_…)

BACKENDS = {'unique': 'USED_RECEIPT_IDS_UNIQUE',
        'sorted': 'USED_RECEIPT_IDS_SORTED_NATURAL', None:
        'USED_RECEIPT_IDS_UNIQUE'}


def gen_backend(d):
    """ read when a program starts, so only real programs show it """
    sp = world(d, min_recs=3, max_recs=8, ndev=1, multi=False,
            id_style=d.choice(['num', 'pad', 'pre', None]))
    n = len(sp['recs'])
    if d.bool(1, 3):
        i, j = d.sample(range(n), 2)
        a, b = sp['recs'][i], sp['recs'][j]
        if d.bool():
            a['id'], b['id'] = b['id'], a['id']
        else:
            a['id'] = b['id']
    return {'w': sp, 'env': d.choice(['sorted', 'sorted', 'unique', None]),
            'env2': d.choice(['sorted', 'unique', None]), 'cut': d.int(1, n - 1),
            'how': d.choice(['single', 'verify', 'create', 'create', 'read']),
            'pre': d.choice([[], ['0'], ['1', '2'], ['a1', 'a02', 'a10']]),
            'o': [options(d, n) for _ in range(2)]}


def run_backend(case, ctx):
    w = sim.World(case['w'])
    key = w.aes
    env = lambda e: {} if e is None else {'RKSV_STATE_RECEIPT_IDS': BACKENDS[e]}
    name = BACKENDS[case['env']]
    how = case['how']
    ctx.label('backend-' + str(case['env']), how)
    with cli.scratch() as tmp:
        ks = cli.write(tmp, 'ks.json', json.dumps(w.keystore(with_key=True,
            trust='all')))

        def verify(jws, o, e, stxt):
            dep = {'Belege-Gruppe': [sim.group(jws, w.devs[0].body,
                w.devs[0].chain_bodies)]}
            argv = ['state', 'continue' if len(json.loads(stxt)[
                'cashRegisters']) == 0 else '0'] if stxt else []
            if argv and argv[1] == 'continue':
                argv.pop()
            if o['par']:
                argv += ['par', o['par']]
            if o['chunk'] is not None:
                argv += ['chunksize', o['chunk']]
            argv += [ks, cli.write(tmp, 'dep.json', dump(dep))]
            x = env(e)
            if o['env'] is not None:
                x['RKSV_DEP_CHUNKSIZE'] = str(o['env'])
            r = cli.run('verify.py', argv, stxt.encode() if stxt else b'', x,
                    True)
            st = load_state(json.loads(stxt)) if stxt else None
            want = run_path(dep, keystore(w.keystore(with_key=True,
                trust='all')), key, DEP, st, 0 if stxt and json.loads(stxt)[
                    'cashRegisters'] else None, backend=SORTED if BACKENDS[e] ==
                BACKENDS['sorted'] else UNIQUE)
            what = 'verify.py %r, environment %r: %r' % (argv[:-2], x, r)
            ctx.label(want[0])
            if want[0] == 'ok':
                expect_eq(r.rc, 0, 'exit status of ' + what)
                if stxt:
                    expect_eq(norm_state(json.loads(r.text)), want[1],
                            'state from ' + what)
                    return r.text
            else:
                expect(r.rc != 0, 'no error although the library says %r: %s',
                        want[1:2], what)
                expect_eq(r.out, b'', 'output of ' + what)

        if how == 'single':
            verify(w.jws, case['o'][0], case['env'], None)
            return
        if how == 'verify':
            r = cli.run('verify.py', ['state'], environ=env(case['env']),
                    real=True)
            expect_eq(r.rc, 0, 'exit status of verify.py state')
            stxt = r.text
        else:
            f = os.path.join(tmp, 'state.json')
            r = cli.run('verification_state.py', [f, 'create'], environ=env(
                case['env']), real=True)
            expect_eq(r.rc, 0, 'exit status of create: %r' % r)
            if how == 'read':
                r = cli.run('verification_state.py', [f, 'readUsedReceiptIds',
                    cli.write(tmp, 'ids', ''.join(x + '\n' for x in
                        case['pre']))], environ=env(case['env']), real=True)
                expect_eq(r.rc, 0, 'exit status of readUsedReceiptIds: %r' % r)
            stxt = cli.read(f).decode('utf-8')
        js = json.loads(stxt)
        expect_eq(js['cashRegisters'], [], 'registers of a new state')
        pre = case['pre'] if how == 'read' else []
        if name == BACKENDS['sorted']:
            data = {'minId': pre[0] if pre else None, 'maxId': pre[-1] if pre
                    else None}
        else:
            data = sorted(pre)
        expect_eq(norm_state(js)['usedReceiptIds'], {'backendType': name,
            'backendData': data}, 'used IDs of a new state')
        c = case['cut']
        stxt = verify(w.jws[:c], case['o'][0], case['env2'], stxt)
        if stxt:
            expect_eq(json.loads(stxt)['usedReceiptIds']['backendType'], name,
                    'the way used IDs are kept')
            verify(w.jws[c:], case['o'][1], case['env2'], stxt)


SUBS = [Sub('steps', gen, run, 1200), Sub('usage', gen_usage, run_usage, 300),
        Sub('real', lambda d: gen(d, True), run, 32, 400),
        Sub('real-backend', gen_backend, run_backend, 60, 800)]
