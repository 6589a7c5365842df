import copy

from .. import sim
from ..paths import (run_path, DEP, load_state, dump_state, receipt, utils,
        verification_state)
from ..runner import Sub, expect, expect_eq
from ..strategies import world, path, layout

ID = 'C09'
TITLE = 'The verdict does not depend on how a DEP is read or parallelised'
RULE = ('a case counts if the DEP has more than one receipt and two different '
        'ways to verify it were compared; distinct by scenario and paths')


def defect(d, sp):
    """ breaks the scenario in some way; returns a name """
    n = len(sp['recs'])
    i = d.int(0, n - 1)
    r = sp['recs'][i]
    op = d.choice(['delta', 'chain', 'reg', 'ts', 'key', 'dup', 'broken', 'c',
        'kind', 'serial', 'sig', 'zda', 'sums', 'enc'])
    o = {}
    if op == 'delta':
        o['delta'] = d.choice([1, -1, 100])
    elif op == 'chain':
        o['chain'] = sim.chain_value('x')
    elif op == 'reg':
        o['reg'] = sp['reg'] + 'x'
    elif op == 'ts':
        o['ts'] = d.choice(['0900-01-01T00:00:00', '9999-12-31T23:59:59',
            '2017-13-01T00:00:00', ''])
    elif op == 'key':
        o['key'] = 4242
    elif op == 'dup':
        r['id'] = sp['recs'][d.int(0, n - 1)]['id']
    elif op == 'broken':
        r['b'] = not r['b']
    elif op == 'c':
        r['c'] = [d.int(0, 5), 0, 0, 0, 0]
    elif op == 'kind':
        r['k'] = d.choice('SDR')
    elif op == 'serial':
        o['serial'] = d.choice(['abc', 'U:ATU1', '??', '1'])
    elif op == 'sig':
        o['sig'] = d.choice(['', 'AAAA', '%%'])
    elif op == 'zda':
        o['zda'] = d.choice(['AT0', 'AT1', 'xx'])
    elif op == 'sums':
        o['sums'] = ['0,00'] * 4 + [d.choice(['0,0', '1,00', 'x'])]
    else:
        o['enc'] = d.choice(['', 'AA==', 'U1RP', '?'])
    if o:
        r['o'] = dict(r.get('o') or {}, **o)
    return op


def mangle(d, dep):
    """ structural damage """
    g = dep['Belege-Gruppe']
    i = d.int(0, len(g) - 1)
    op = d.choice(['emptygroup', 'emptygroup', 'missing', 'badcert', 'badchain',
        'nonstring', 'garbage', 'swapcert', 'nolist', 'emptyall',
        'extracert'])
    if op == 'emptygroup':
        g.insert(d.int(0, len(g)), sim.group([], g[i]['Signaturzertifikat'],
            g[i]['Zertifizierungsstellen']))
    elif op == 'missing':
        del g[i][d.choice(['Signaturzertifikat', 'Zertifizierungsstellen',
            'Belege-kompakt'])]
    elif op == 'badcert':
        g[i]['Signaturzertifikat'] = d.choice(['AAAA', 5, None, 'é'])
    elif op == 'badchain':
        g[i]['Zertifizierungsstellen'] = d.choice([['AAAA'], 'x', None, [5],
            {}])
    elif op == 'nonstring':
        r = g[i]['Belege-kompakt']
        r[d.int(0, len(r) - 1)] = d.choice([5, None, [], {}, True])
    elif op == 'garbage':
        r = g[i]['Belege-kompakt']
        r[d.int(0, len(r) - 1)] = d.choice(['', 'a.b.c', '..', 'é.é.é', 'x'])
    elif op == 'swapcert':
        j = d.int(0, len(g) - 1)
        a, b = g[i], g[j]
        a['Signaturzertifikat'], b['Signaturzertifikat'] = \
                b['Signaturzertifikat'], a['Signaturzertifikat']
    elif op == 'nolist':
        g[i]['Belege-kompakt'] = d.choice([None, 'x', {}, 5])
    elif op == 'extracert':
        g[i]['Zertifizierungsstellen'] = list(
                g[i]['Zertifizierungsstellen']) * 2
    else:
        for x in g:
            x['Belege-kompakt'] = []
    return op


def gen(d, real=False):
    sp = world(d, min_recs=1, max_recs=16, multi=d.bool(3, 5))
    n = len(sp['recs'])
    ops = []
    k = d.int(0, 7)
    if k >= 3:
        for _ in range(1 if k < 7 else 2):
            ops.append(defect(d, sp))
    w = sim.World(sp)
    start = d.weighted(4, 'none', 1, 'cont', 1, 'arb') if n > 1 else 'none'
    cut = 0
    if start != 'none':
        # from the state after the receipts before, or one made from a receipt
        cut = d.int(1, n - 1)
        if d.bool(1, 3):
            cut = n - 1
        w.jws, w.recdev = w.jws[cut:], w.recdev[cut:]
    dep = w.dep()
    if d.bool(1, 4):
        ops.append(mangle(d, dep))
    ps = [path(d, n, real, ['dict', 'full', 'file', 'file', 'text', 'stream',
        'fulltext']) for _ in range(2)]
    return {'w': sp, 'dep': dep, 'ops': ops, 'key': d.bool(3, 4),
            'trust': d.choice(['all', 'all', 'all', 'leaf', 'root', 'mid']),
            'paths': ps, 'start': start, 'cut': cut}


def first_state(case, w, ks, key):
    """ JSON of the state the verification starts from; None: without one """
    start, cut = case.get('start', 'none'), case.get('cut')
    if start == 'none':
        return None, None
    if start == 'arb':
        try:
            r, prefix = receipt.Receipt.fromJWSString(w.jws[cut])
            st = verification_state.ClusterState.fromArbitraryReceipt(r, prefix,
                    key)
        except utils.RKSVException:
            return None, None
        return dump_state(st), 0
    p = sim.World(w.spec)
    p.jws, p.recdev = w.jws[:cut], w.recdev[:cut]
    got = run_path(p.dep(), ks, key, dict(DEP))
    if got[0] != 'ok':
        return None, None
    return got[1], 0


def run(case, ctx):
    w = sim.World(case['w'])
    dep = case['dep']
    ks = w.keystore(trust=case['trust'])
    key = w.aes if case['key'] else None
    g = [x for x in dep['Belege-Gruppe'] if x.get('Belege-kompakt')]
    if len(g) > 1 and any(x.get('Signaturzertifikat') == '' for x in g):
        ctx.trivial()       # known finding F20
        ctx.label('F20')
        return
    js, idx = first_state(case, w, ks, key)

    def state():
        return None if js is None else load_state(copy.deepcopy(js))
    base = run_path(copy.deepcopy(dep), ks, key, DEP, state(), idx)
    ctx.label(base[0], *case['ops'])
    if js is not None:
        ctx.label('start:%s %s' % (case['start'], base[0]))
    ctx.label('groups%d' % min(3, len(g)))
    if len(w.jws) < 2:
        ctx.trivial()
    for p in case['paths']:
        got = run_path(copy.deepcopy(dep), ks, key, p, state(), idx)
        ctx.label(p['p'] + '/' + str(p.get('pool')))
        expect(got[0] == base[0], 'verdicts differ: verifyDEP says %s, %r '
                'says %s', base[:2], p, got[1:] if got[0] == 'bad' else 'ok')
        if base[0] == 'ok':
            expect_eq(got[1], base[1], 'states differ for %r' % (p,))


def gen_grid(d):
    """ short histories around signature device failures and repeated IDs,
    verified with every chunk size and number of packages """
    n = d.int(2, 6)
    sp = world(d, min_recs=n, max_recs=n, multi=d.bool(1, 4), ndev=1)
    sp['recs'] = sp['recs'][:n]
    for i, r in enumerate(sp['recs']):
        if i:
            r['k'] = d.choice('SSSDR')
            r['b'] = d.bool(2, 5)
            r['c'] = [d.choice([0, 0, 1, -1]), 0, 0, 0, 0]
    if d.bool(1, 5):
        sp['recs'][d.int(0, n - 1)]['id'] = sp['recs'][d.int(0, n - 1)]['id']
    elif d.bool(1, 4):
        defect(d, sp)
    return {'w': sp, 'p': d.choice(['dict', 'file', 'stream']), 'key':
            d.bool(3, 4), 'start': d.choice(['none', 'none', 'cont', 'arb']),
            'cut': d.int(1, n - 1)}


def run_grid(case, ctx):
    w = sim.World(case['w'])
    ks = w.keystore(trust='all')
    key = w.aes if case['key'] else None
    if len(w.jws) < 2:
        ctx.trivial()
    js, idx = first_state(case, w, ks, key)
    if js is not None:
        w.jws, w.recdev = w.jws[case['cut']:], w.recdev[case['cut']:]
        ctx.label('start:%s' % case['start'])
    dep = w.dep()
    n = len(w.jws)

    def state():
        return None if js is None else load_state(copy.deepcopy(js))
    base = run_path(copy.deepcopy(dep), ks, key, DEP, state(), idx)
    ctx.label(base[0] if base[0] == 'ok' else base[1])
    for chunk in range(1, n + 1):
        for nprocs in range(1, 2 + (n - 1) // chunk):
            p = {'p': case['p'], 'chunk': chunk, 'nprocs': nprocs,
                'pool': 'pickle'}
            got = run_path(copy.deepcopy(dep), ks, key, p, state(), idx)
            expect(got[0] == base[0], 'verdicts differ: verifyDEP says %s, '
                    '%r says %s', base[:2], p, got[1:] if got[0] == 'bad'
                    else 'ok')
            if base[0] == 'ok':
                expect_eq(got[1], base[1], 'states differ for %r' % (p,))


def gen_big(d):
    """ more receipts, real worker processes """
    sp = world(d, min_recs=20, max_recs=60, multi=d.bool())
    n = len(sp['recs'])
    ops = []
    if d.bool(1, 3):
        ops.append(defect(d, sp))
    return {'w': sp, 'dep': sim.World(sp).dep(), 'ops': ops, 'key': d.bool(3, 4),
            'trust': 'all', 'paths': [dict(path(d, n, False, ['dict', 'file',
                'full', 'stream']), pool='real', nprocs=d.choice([2, 3, 4]),
                chunk=d.choice([0, 5, 7, 20, n])) for _ in range(2)]}


def norm_big(case):
    return case


def run_big(case, ctx):
    for p in case['paths']:
        if p['p'] == 'stream' and p['chunk']:
            p['layout']['order'] = 0
    run(case, ctx)


F20 = {'open': True}


def known():
    """ F20: several groups, none of them with a certificate """
    sp = {'closed': False, 'reg': 'r', 'aes': 0, 'size': 8, 'devs': [
        {'k': 1, 'ser': 12, 'chain': 0, 'zda': 'AT1', 'fmt': 'hex'}],
        'recs': [{'id': str(i), 't': 10 ** 9, 'c': [0] * 5, 'k': 'S', 'd': 0,
            'b': False} for i in range(4)]}
    w = sim.World(sp)
    dep = {'Belege-Gruppe': [sim.group(w.jws[:2]), sim.group(w.jws[2:])]}
    a = run_path(dep, w.keystore(), None, {'p': 'dict', 'chunk': 2})
    b = run_path(dep, w.keystore(), None, {'p': 'dict', 'chunk': 4})
    if a[0] == 'ok' and b[0] == 'bad':
        return ['KNOWN-FINDING: property=C09 a DEP with several groups without '
                'certificates is accepted with chunk size 2 and rejected with '
                'chunk size 4']
    return []


SUBS = [Sub('paths', gen, run, 5000), Sub('grid', gen_grid, run_grid, 1200),
        Sub('real', gen_big, run_big, 96)]
