from .. import sim
from ..paths import (UNIQUE, SORTED, load_state, dump_state, verdict, run_path,
        DEP, keystore)
from ..ref import RefState, ref_norm, ref_verify
from ..runner import Sub, expect, expect_eq
from ..strategies import world, path
from .c09 import defect
from .common import compare

ID = 'C10'
QUICK = 1
TITLE = 'Verifying a register in instalments equals verifying it at once'
RULE = ('a case counts if the DEP was split into at least two instalments; '
        'distinct by scenario, split points and paths')


def gen(d, lo=2, hi=14):
    natural = d.bool(1, 5)
    sp = world(d, min_recs=lo, max_recs=hi, multi=d.bool(),
            id_style=d.choice(['num', 'pre', 'pad']) if natural else None)
    n = len(sp['recs'])
    ops = [defect(d, sp)] if d.bool(2, 5) else []
    cuts = sorted({d.int(1, n - 1) for _ in range(d.int(1, 5))})
    return {'w': sp, 'cuts': cuts, 'ops': ops, 'natural': natural,
            'paths': [path(d, n) for _ in range(len(cuts) + 1)],
            'json': d.bool(3, 4), 'idx': d.bool(), 'key': d.bool(3, 4)}


def part(w, a, b):
    p = sim.World(w.spec)
    p.jws = w.jws[a:b]
    p.recdev = w.recdev[a:b]
    return p.dep()


def run(case, ctx):
    w = sim.World(case['w'])
    ks = w.keystore(trust='all')
    key = w.aes if case['key'] else None
    backend = SORTED if case['natural'] else UNIQUE
    whole = run_path(w.dep(), ks, key, DEP, backend=backend)
    r = ref_verify(w.dep(), ks, key, RefState(case['natural']))
    if r[0] != '?':
        expect_eq(whole[0], r[0], 'verdict on the whole DEP (%r)' % (r[1:],))
    bounds = [0] + case['cuts'] + [len(w.jws)]
    state = None
    last = None
    ctx.label(whole[0], *case['ops'])
    for k in range(len(bounds) - 1):
        dep = part(w, bounds[k], bounds[k + 1])
        if state is not None and case['json']:
            state = load_state(last)
        got = run_path(dep, ks, key, case['paths'][k], state,
                None if k == 0 else 0, backend)
        if got[0] != 'ok':
            expect(whole[0] == 'bad', 'instalment %d of an acceptable DEP was '
                    'rejected: %s', k, got[1:])
            ctx.label('stopped%d' % k)
            return
        last = got[1]
        # what a verification of everything up to here yields
        pre = run_path(part(w, 0, bounds[k + 1]), ks, key, DEP,
                backend=backend)
        expect(pre[0] == 'ok', 'instalment %d accepted, but everything up to '
                'there is not: %s', k, pre[1:])
        expect_eq(last, pre[1], 'state after instalment %d' % k)
        state = load_state(last)
    expect(whole[0] == 'ok', 'all instalments accepted, the whole DEP is '
            'rejected: %s', whole[1:])


def gen_skip(d):
    """ instalments left out, repeated or in the wrong order are noticed """
    sp = world(d, min_recs=3, max_recs=10)
    n = len(sp['recs'])
    cuts = sorted({d.int(1, n - 1) for _ in range(d.int(2, 4))})
    k = len(cuts) + 1
    order = list(range(k))
    op = d.choice(['skip', 'repeat', 'swap', 'rewind'])
    i = d.int(0, k - 1)
    if op == 'skip':
        del order[i]
    elif op == 'repeat':
        order.insert(i + 1, i)
    elif op == 'swap' and k > 1:
        j = (i + 1) % k
        order[i], order[j] = order[j], order[i]
    else:
        order.append(i)
    return {'w': sp, 'cuts': cuts, 'order': order, 'op': op,
            'paths': [path(d, n) for _ in order], 'key': d.bool()}


def run_skip(case, ctx):
    w = sim.World(case['w'])
    ks = w.keystore(trust='all')
    key = w.aes if case['key'] else None
    bounds = [0] + case['cuts'] + [len(w.jws)]
    rs = RefState()
    state = None
    ctx.label(case['op'])
    for n, k in enumerate(case['order']):
        r = compare(ctx, part(w, bounds[k], bounds[k + 1]), ks, key,
                case['paths'][n], state=state, idx=None if n == 0 else 0,
                refstate=rs, cls=False)
        if r[0] != 'ok':
            return
        rs = r[1]
        state = load_state(ref_norm(rs))


SUBS = [Sub('split', gen, run, 3500),
        Sub('long', lambda d: gen(d, 60, 200), run, 40), Sub('order', gen_skip, run_skip, 2500)]
