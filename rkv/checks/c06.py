from .. import sim
from ..paths import load_state
from ..ref import RefState, new_reg, ref_norm
from ..runner import Sub
from ..strategies import world, path, reg_id
from .common import compare

ID = 'C06'
TITLE = 'A register starts with a signed, standard, zero start receipt'
RULE = ('a case counts if the first receipt deviates from a proper start '
        'receipt, or the DEP continues after it; distinct by scenario')

OPS = ['broken', 'amount', 'amount', 'cancel', 'dummy', 'reversal', 'chain',
    'chain', 'none', 'negzero', 'later']


def gen(d):
    sp = world(d, min_recs=1, max_recs=6, reg=reg_id(d))
    n = len(sp['recs'])
    ops = [d.choice(OPS)]
    if d.bool(1, 6):
        ops.append(d.choice(OPS))
    r = sp['recs'][0]
    o = {}
    for op in ops:
        if op == 'broken':
            r['b'] = True
        elif op == 'amount':
            r['c'] = [0] * 5
            r['c'][d.int(0, 4)] = d.choice([1, -1, 100, 12345])
        elif op == 'cancel':
            r['c'] = d.perm([100, -100, 0, 0, 0])
        elif op == 'dummy':
            r['k'] = 'D'
        elif op == 'reversal':
            r['k'] = 'R'
        elif op == 'chain':
            v = d.choice([sp['reg'] + 'x', r['id'], '', sp['reg'].lower() + ' ',
                sp['reg'][::-1] + '.', 'AT1'])
            o['chain'] = sim.chain_value(v)
        elif op == 'negzero':
            o['sums'] = ['-0,00', '0,00', '0,00', '-0,00', '0,00']
        elif op == 'later' and n > 2:
            # the proper start receipt only comes later
            sp['cutfront'] = d.int(1, n - 1)
    if o:
        r['o'] = o
    return {'w': sp, 'ops': ops, 'key': d.bool(), 'path': path(d, n)}


def run(case, ctx):
    sp = case['w']
    w = sim.World(sp)
    k = sp.get('cutfront', 0)
    w.jws = w.jws[k:]
    w.recdev = w.recdev[k:]
    ctx.label(*case['ops'])
    if case['ops'] == ['none'] and len(w.jws) < 2:
        ctx.trivial()
    compare(ctx, w.dep(), w.keystore(trust='all'), w.aes if case['key']
            else None, case['path'], cls=len(case['ops']) == 1
            and case['path']['p'] == 'dep' and case['ops'] != ['later'])


# ---------------------------------------------------- start within a cluster

def gen_cluster(d):
    sp = world(d, closed=d.bool(5, 6), min_recs=2, max_recs=6)
    k = d.int(1, len(sp['recs']) - 1)
    a, b = dict(sp, recs=sp['recs'][:k]), dict(sp, recs=sp['recs'][k:])
    r = b['recs'][0]
    r.update(k='S', b=False, c=[0] * 5)
    op = d.choice(['none', 'broken', 'broken', 'amount', 'cancel', 'dummy',
        'reversal', 'dummy-broken', 'reversal-broken', 'chain', 'prev-closed',
        'prev-open', 'reg', 'date', 'id'])
    o = {}
    if op == 'amount':
        r['c'][d.int(0, 4)] = d.choice([1, -1, 100, 12345])
    elif op == 'cancel':
        r['c'] = d.perm([100, -100, 0, 0, 0])
    elif op == 'chain':
        o['chain'] = d.choice(['own', 'last', 'none'])
    elif op == 'prev-open':
        a['recs'][0]['o'] = {'zda': d.choice(['AT1', 'DE17']), 'serial': '1f'}
    elif op == 'prev-closed':
        a['recs'][0]['o'] = {'zda': 'AT0', 'serial': 'U:ATU12345678-K1'}
    elif op == 'reg':
        o['reg'] = d.choice([sp['reg'] + 'x', sp['reg'].swapcase(), 'y'])
    elif op == 'date':
        a['recs'][0]['o'] = {'ts': sim.stamp(min(r['t'] +
            d.choice([1, 60, 86400]), 253402300799))}
    elif op == 'id':
        r['id'] = d.choice(a['recs'])['id']
    if 'dummy' in op:
        r['k'] = 'D'
    if 'reversal' in op:
        r['k'] = 'R'
    if 'broken' in op:
        r['b'] = True
    if o:
        r['o'] = o
    return {'a': a, 'b': b, 'op': op, 'key': d.bool(), 'given': d.bool(),
            'path': {'p': 'dep'} if d.bool() else path(d, len(b['recs']))}


def run_cluster(case, ctx):
    wa = sim.World(case['a'])
    start = wa.jws[0]
    o = case['b']['recs'][0].get('o', {})
    if 'chain' in o:
        o['chain'] = sim.chain_value({'own': case['b']['reg'], 'last':
            wa.jws[-1] + ('x' if len(wa.jws) == 1 else ''), 'none': ''}[
                o['chain']])
    wb = sim.World(case['b'], start)
    rs = RefState()
    rs.regs.append(dict(new_reg(), startReceiptJWS=start,
        lastReceiptJWS=wa.jws[-1]))
    rs.used = {r['id'] for r in case['a']['recs']}
    ctx.label(case['op'], 'closed' if case['a']['closed'] else 'open')
    if case['op'] == 'none' and len(wb.jws) < 2:
        ctx.trivial()
    compare(ctx, wb.dep(), wb.keystore(trust='all'), wb.aes if case['key']
            else None, case['path'], state=load_state(ref_norm(rs)), idx=1 if
            case['given'] else None, refstate=rs, cls=case['path']['p'] ==
            'dep')


SUBS = [Sub('start', gen, run, 7000),
        Sub('cluster', gen_cluster, run_cluster, 3000)]
