from .. import sim
from ..runner import Sub, expect
from ..strategies import world, path, MAXCNT
from .common import compare

ID = 'C04'
TITLE = 'The turnover counter is exactly the sum of all recorded turnovers'
RULE = ('a case counts if the DEP contains at least one receipt with turnover '
        'or a manipulated counter; distinct by scenario')


def gen(d, lo=2, hi=9):
    sp = world(d, min_recs=lo, max_recs=hi, broken_rate=d.choice([0, 3]))
    n = len(sp['recs'])
    i = d.choice([0, n - 1, d.int(0, n - 1)])
    op = d.choice(['delta', 'delta', 'delta', 'delta', 'aes', 'iv', 'sum',
        'sum', 'sumpair', 'type', 'size', 'wrongkey', 'none', 'resum'])
    c = {'w': sp, 'i': i, 'op': op, 'key': d.bool(9, 10), 'path': path(d, n)}
    r = sp['recs'][i]
    if op == 'delta':
        sp['recs'][i]['o'] = {'delta': d.choice([1, -1, 100, -100, 2 ** 32,
            256, 65536, -2 ** 39, 10 ** 6, d.int(1, 10 ** 9),
            # one bit of the counter, most of all in the large ones
            1 << d.int(0, 8 * sp['size'] - 1), -1 << d.int(0,
                8 * sp['size'] - 1), 1 << 8 * d.int(1, sp['size'] - 1),
            d.int(1, 9) << 8 * d.int(4, sp['size'] - 1)])}
        if d.bool(1, 3):
            sp['recs'][i]['k'] = 'S'
    elif op == 'aes':
        r['o'] = {'aes': 77}
    elif op == 'iv':
        r['o'] = {'iv': r['id'] + 'x'}
    elif op in ('sum', 'sumpair'):
        # the printed amounts differ from what was added to the counter
        s = [sim.money(x) for x in r['c']]
        k = d.int(0, 4)
        s[k] = sim.money(r['c'][k] + d.choice([1, -1, 100, 10 ** 15, -1000]))
        if op == 'sumpair':
            k2 = (k + d.int(1, 4)) % 5
            s[k2] = sim.money(r['c'][k2] - d.choice([1, -1, 100]))
        if i == 0:
            r = sp['recs'][n - 1]
        r['o'] = {'sums': s}
    elif op == 'type':
        # a dummy receipt that was counted / a reversal that was not
        c['enc'] = d.choice(['VFJB', 'U1RP', 'std'])
    elif op == 'size':
        r['sz'] = d.int(max(5, sp['size']), 16)
    elif op == 'wrongkey':
        c['wrong'] = d.int(0, 1)
    elif op == 'resum':
        c['factor'] = d.choice([10 ** 6, 10 ** 9 + 7, 10 ** 12 + 1, 2 ** 60 + 1])
        sp['size'] = 16
        for x in sp['recs']:
            x.pop('sz', None)
            if any(x['c']):
                x['c'] = [v * c['factor'] + (1 if v else 0) for v in x['c']]
    return c


def run(case, ctx):
    sp = case['w']
    op = case['op']
    if op == 'resum' and any(abs(sum(v for r in sp['recs'] for v in [abs(y)
            for y in r['c']])) > MAXCNT[16] for _ in (0,)):
        ctx.trivial()
        return
    i = case['i']
    if op == 'type':
        r = sp['recs'][i]
        if case['enc'] == 'std':
            cnt = sim.World(sp).counters[i] - (sum(r['c']) if r['k'] != 'D'
                    else 0)
            r['o'] = {'enc': sim.b64(sim.enc_counter(sim.aes_key(sp['aes']),
                sp['reg'], r['id'], cnt, sp['size']))}
        else:
            r['o'] = {'enc': case['enc']}
    w = sim.World(sp)
    key = w.aes if case['key'] else None
    if op == 'wrongkey':
        key = sim.aes_key(99)
    ctx.label(op, 'size%d' % sp['size'])
    if op == 'none' and not any(any(r['c']) for r in sp['recs']):
        ctx.trivial()
    std = sp['recs'][i]['k'] == 'S'
    r = compare(ctx, w.dep(), w.keystore(trust='all'), key, case['path'],
            cls=case['path']['p'] == 'dep')
    if op == 'delta' and std and case['key'] and r[0] == 'ok':
        raise AssertionError('reference accepted a wrong counter')


def gen_key(d):
    return {'len': d.choice([0, 1, 16, 24, 31, 33, 64]),
            'w': world(d, max_recs=4), 'path': path(d, 4)}


def run_key(case, ctx):
    """ a key of the wrong length is an error, never ignored """
    w = sim.World(case['w'])
    compare(ctx, w.dep(), w.keystore(trust='all'), bytes(range(case['len'])),
            case['path'])


SUBS = [Sub('counter', gen, run, 9000),
        Sub('long', lambda d: gen(d, 60, 200), run, 40), Sub('key', gen_key, run_key, 600)]
