import json

from .. import sim
from ..paths import (UNIQUE, SORTED, load_state, dump_state, verdict,
        verification_state)
from ..ref import RefState, Natural, ref_norm
from ..runner import Sub, expect, expect_eq
from ..strategies import world, path, Ids, any_text
from .common import compare

ID = 'C08'
TITLE = 'No receipt ID is used twice'
RULE = ('a case counts if it contains a repeated (or, for sorted IDs, a not '
        'increasing) receipt ID or several receipts; distinct by scenario')


def gen(d, lo=2, hi=12):
    sorted_ = d.bool(1, 3)
    sp = world(d, min_recs=lo, max_recs=hi, id_style=d.choice(['num', 'pre',
        'pad', None]) if sorted_ else None)
    n = len(sp['recs'])
    i, j = sorted(d.sample(range(n), 2))
    op = d.choice(['dup', 'dup', 'near', 'none', 'swapids'])
    if op == 'dup':
        sp['recs'][j]['id'] = sp['recs'][i]['id']
    elif op == 'near':
        x = sp['recs'][i]['id']
        sp['recs'][j]['id'] = d.choice([x + ' ', x.swapcase(), '0' + x,
            x + '0', x + '\u0301', ' ' + x, x.upper(), x.lower()])
    elif op == 'swapids':
        a, b = sp['recs'][i], sp['recs'][j]
        a['id'], b['id'] = b['id'], a['id']
    # split into several DEPs, with the state saved in between
    cuts = sorted({d.int(1, n - 1) for _ in range(d.int(0, 2))})
    # IDs that are used already, for example by a register no longer there
    pre = None
    if d.bool(1, 4):
        ids = [r['id'] for r in sp['recs']]
        pre = sorted({d.choice(['0', 'x', ids[0] + ' ', ids[0][:-1] or 'y',
            'R1']) for _ in range(d.int(0, 2))} - set(ids))
        if d.bool():
            pre.insert(0, ids[d.choice([0, 0, n - 1, d.int(0, n - 1)])])
    return {'w': sp, 'op': op, 'sorted': sorted_, 'split': cuts, 'pre': pre,
            'paths': [path(d, n) for _ in range(len(cuts) + 1)],
            'key': d.bool(), 'arg': d.bool()}


def run(case, ctx):
    w = sim.World(case['w'])
    ks = w.keystore(trust='all')
    key = w.aes if case['key'] else None
    backend, other = (SORTED, UNIQUE) if case['sorted'] else (UNIQUE, SORTED)
    rs = RefState(case['sorted'])
    state = None
    ctx.label(case['op'], 'sorted' if case['sorted'] else 'unique')
    if case.get('pre') is not None:
        for x in case['pre']:
            rs.used.add(x)
        state = load_state(ref_norm(rs))
        ctx.label('preset')
    if case['op'] == 'none' and not case['sorted'] and not case.get('pre'):
        ctx.trivial()
    bounds = [0] + case['split'] + [len(w.jws)]
    for k in range(len(bounds) - 1):
        part = sim.World(case['w'])
        part.jws = w.jws[bounds[k]:bounds[k + 1]]
        part.recdev = w.recdev[bounds[k]:bounds[k + 1]]
        r = compare(ctx, part.dep(), ks, key, case['paths'][k], state=state,
                idx=None if k == 0 else 0, refstate=rs, backend=backend
                # a given state keeps its own way to store the IDs
                if state is None or not case.get('arg') else other,
                cls=case['paths'][k]['p'] == 'dep')
        if r[0] != 'ok':
            return
        rs = r[1]
        if k + 2 < len(bounds):
            state = load_state(ref_norm(rs))


# ------------------------------------------- the two ways to remember IDs

def gen_model(d):
    ids = Ids(d, d.choice(['num', 'pre', 'case', 'text', None]))
    pool = [ids.next() for _ in range(d.int(2, 8))]
    ops = []
    for _ in range(d.upto(1, 25)):
        k = d.choice(['use', 'use', 'use', 'merge', 'json'])
        if k == 'use':
            ops.append(['use', d.choice(pool)])
        elif k == 'merge':
            ops.append(['merge', [[d.choice(pool) for _ in range(d.int(0, 3))]
                for _ in range(d.int(1, 3))]])
        else:
            ops.append(['json'])
    return {'sorted': d.bool(), 'ops': ops}


def model_use(m, x):
    if x in m:
        return False
    m.add(x)
    return True


def real_use(b, x):
    b.check(x)
    b.add(x)


def run_model(case, ctx):
    b = (SORTED if case['sorted'] else UNIQUE)()
    m = Natural() if case['sorted'] else set()
    dups = 0
    for op in case['ops']:
        if op[0] == 'use':
            want = model_use(m, op[1])
            got = verdict(lambda: real_use(b, op[1]))
            expect((got[0] == 'ok') == want, 'ID %r %s', op[1],
                    'refused although unused' if want else 'accepted twice')
            dups += not want
        elif op[0] == 'json':
            data = json.loads(json.dumps(b.writeToJson()))
            b = verification_state.UsedReceiptIdsBackend.readFromJson(data,
                    'usedReceiptIds')
        else:
            # what worker processes found, each on its own
            parts, flat, own_dup = [], [], False
            for ids in op[1]:
                p = (SORTED if case['sorted'] else UNIQUE)()
                pm = Natural() if case['sorted'] else set()
                for x in ids:
                    if model_use(pm, x):
                        real_use(p, x)
                        flat.append(x)
                    else:
                        r = verdict(lambda: real_use(p, x))
                        expect(r[0] == 'bad', 'ID %r accepted twice', x)
                parts.append(p)
            want = all([model_use(m, x) for x in flat])
            got = verdict(lambda: b.merge(parts))
            expect((got[0] == 'ok') == want, 'merging %r %s', op[1], 'failed '
                    'although all IDs are new' if want
                    else 'succeeded although an ID is used twice')
            if not want:
                ctx.label('merge-dup')
                return
    if not dups:
        ctx.trivial()
    data = b.writeToJson()['backendData']
    if case['sorted']:
        expect_eq([data['minId'], data['maxId']], [m.lo, m.hi], 'stored IDs')
    else:
        expect_eq(sorted(data), sorted(m), 'stored IDs')


SUBS = [Sub('dep', gen, run, 6000),
        Sub('long', lambda d: gen(d, 60, 200), run, 40), Sub('backend', gen_model, run_model, 6000)]
