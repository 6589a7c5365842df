from .. import sim
from ..paths import UNIQUE, load_state, dump_state, run_path, DEP
from ..ref import RefState, new_reg, ref_norm, ref_verify
from ..runner import Sub, expect, expect_eq
from ..strategies import (world, path, devices, Walk, Ids, reg_id, BASES)
from .common import compare

ID = 'C11'
TITLE = 'Clusters: registers start on their predecessor and share receipt IDs'
RULE = ('a case counts if at least two registers took part; distinct by '
        'cluster, order of the DEPs and defect')

OPS = ['none', 'none', 'none', 'chain', 'dup', 'open', 'idx', 'nostart',
    'startdate', 'startreg', 'skip', 'idfirst', 'turnover', 'pstart', 'chain2',
    'mixed', 'mixed']


def gen(d):
    nreg = d.int(2, 4)
    closed = d.bool(7, 8)
    ndev = d.int(1, 2)
    devs = devices(d, closed, ndev)
    ids = Ids(d)
    reg = reg_id(d)
    size = d.choice([5, 8, 16])
    base = d.choice(BASES[:-1])
    regs = []
    t = base
    for i in range(nreg):
        w = Walk(d, ndev, size, ids, t=t, broken_rate=d.choice([0, 3]))
        recs = d.list(1, 6, w.next)
        t = recs[0]['t']
        regs.append({'recs': recs, 'cuts': sorted({d.int(1, max(1,
            len(recs) - 1)) for _ in range(d.int(0, 2))})})
    op = d.choice(OPS)
    c = {'closed': closed, 'devs': devs, 'reg': reg, 'size': size, 'op': op,
            'regs': regs, 'aes': d.int(0, 2), 'key': d.bool(3, 4),
            'multi': d.bool(), 'seed': [d.int(0, 99) for _ in range(16)],
            'which': d.int(1, nreg - 1), 'idxnone': d.bool(),
            'paths': [path(d, 6) for _ in range(6)]}
    k = c['which']
    r = regs[k]['recs']
    if op == 'chain':
        r[0]['o'] = {'chain': sim.chain_value(d.choice([reg, 'x', '']))}
    elif op == 'dup':
        o = regs[d.int(0, k - 1)]['recs']
        r[d.int(0, len(r) - 1)]['id'] = o[d.int(0, len(o) - 1)]['id']
    elif op == 'startdate':
        r[0]['t'] = regs[k - 1]['recs'][0]['t'] - d.choice([1, 86400])
    elif op == 'startreg':
        for x in r:
            x['o'] = {'reg': reg + 'x'}
    elif op == 'turnover':
        # each register has a counter of its own
        x = r[d.int(0, len(r) - 1)]
        x['o'] = {'delta': d.choice([1, 100])}
    elif op == 'mixed':
        # an open register among closed ones or the reverse
        other = devices(d, not closed, ndev)
        for i, x in enumerate(other):
            x['k'] = devs[i]['k'] + 1000
            if not closed or x['ser'] in [y['ser'] for y in devs]:
                x['ser'] += 1 << 40
        c['other'] = other
    elif op == 'chain2':
        # chained to the last receipt (or an older register) instead
        c['tolast'] = d.bool()
    return c


def worlds_of(case):
    out = []
    prev = None
    for i, g in enumerate(case['regs']):
        start = prev.jws[0] if prev else None
        if case['op'] == 'chain2' and i == case['which']:
            start = prev.jws[-1] if case['tolast'] else \
                    out[i - 2].jws[0] if i >= 2 else None
        mixed = case['op'] == 'mixed' and i == case['which']
        spec = {'closed': case['closed'] != mixed, 'reg': case['reg'],
                'aes': case['aes'], 'size': case['size'], 'devs':
                case['other' if mixed else 'devs'],
                'recs': g['recs'], 'multi': case['multi']}
        w = sim.World(spec, start)
        out.append(w)
        prev = w
    return out


def run(case, ctx):
    ws = worlds_of(case)
    ks = ws[0].keystore(trust='all')
    if case['op'] == 'mixed':
        ks['certificateOrPublicKeyMap'].update(ws[case['which']].keystore(
            trust='all')['certificateOrPublicKeyMap'])
    key = ws[0].aes if case['key'] else None
    # instalments per register, and an order in which they may arrive
    parts = []
    for w, g in zip(ws, case['regs']):
        b = [0] + [c for c in g['cuts'] if c < len(w.jws)] + [len(w.jws)]
        ps = []
        for k in range(len(b) - 1):
            p = sim.World(w.spec)
            p.jws, p.recdev = w.jws[b[k]:b[k + 1]], w.recdev[b[k]:b[k + 1]]
            ps.append(p.dep())
        parts.append(ps)
    pos = [0] * len(ws)
    rs = RefState()
    state = None
    seeds = list(case['seed'])
    op = case['op']
    ctx.label(op, 'closed' if case['closed'] else 'open')
    done = 0
    while True:
        ready = [i for i in range(len(ws)) if pos[i] < len(parts[i])
                and (i == 0 or pos[i - 1] > 0 or pos[i] > 0)]
        if not ready:
            break
        s = seeds[done % len(seeds)]
        i = ready[s % len(ready)]
        idx = i
        if i == len(rs.regs) and case['idxnone']:
            idx = None
        if op == 'idx' and s % 5 == 0:
            idx = [len(rs.regs) + 1, -1, 99][s % 3]
        if op == 'skip' and s % 5 == 0 and len(rs.regs) > 1:
            idx = (i + 1) % len(rs.regs)
        r = compare(ctx, parts[i][pos[i]], ks, key,
                case['paths'][done % len(case['paths'])], state=state,
                idx=idx, refstate=rs,
                cls=op in ('chain', 'idx', 'mixed') and case['closed'] and
                case['paths'][done % len(case['paths'])]['p'] == 'dep')
        if r[0] != 'ok':
            if r[0] == 'bad' and op == 'none':
                expect_eq(r[1], 'cluster-open', 'reference verdict')
            return
        rs = r[1]
        state = load_state(ref_norm(rs))
        pos[i] += 1
        done += 1
    ctx.label('complete')


# -------------------------------------- the predecessor has no known start

def gen_nostart(d):
    sp = world(d, closed=d.bool(3, 4), min_recs=2, max_recs=6)
    k = d.int(1, len(sp['recs']) - 1)
    sp['recs'][k].update(k='S', b=False, c=[0] * 5)
    return {'w': sp, 'k': k, 'before': d.int(0, 2), 'last': d.choice(['rec',
        'rec', 'none', 'chain']), 'idx': d.choice([None, 'next']), 'key':
        d.bool(), 'path': path(d, len(sp['recs']) - k)}


def run_nostart(case, ctx):
    """ no further register can start behind one whose start is not known """
    sp, k = case['w'], case['k']
    w = sim.World(dict(sp, recs=sp['recs'][:k]))
    rs = RefState()
    for i in range(case['before']):
        rs.regs.append(dict(new_reg(), startReceiptJWS=w.jws[0],
            lastReceiptJWS=w.jws[0]))
    rs.regs.append(dict(new_reg(), lastReceiptJWS=w.jws[-1] if case['last']
        != 'none' else None, chainNextTo='AAAAAAAAAAA=' if case['last'] ==
        'chain' else None))
    w2 = sim.World(dict(sp, recs=sp['recs'][k:]), w.jws[0] if case['before']
            else None)
    ctx.label(case['last'], 'behind %d' % case['before'])
    compare(ctx, w2.dep(), w2.keystore(trust='all'), w2.aes if case['key']
            else None, case['path'], want='bad', cls=True,
            state=load_state(ref_norm(rs)), idx=len(rs.regs) if case['idx']
            else None, refstate=rs)


SUBS = [Sub('cluster', gen, run, 4000),
        Sub('nostart', gen_nostart, run_nostart, 600)]
