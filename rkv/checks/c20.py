import json

from .. import sim
from ..paths import (UNIQUE, SORTED, receipt, load_state, dump_state, reg_facts,
        make_parser,
        verification_state, utils, depparser, run_path, DEP, Err)
from ..ref import RefState, ref_norm, ref_verify
from ..runner import Sub, expect, expect_eq
from ..strategies import world, path, layout
from .c11 import gen as gen_cluster, worlds_of

ID = 'C20'
TITLE = 'Fast-forwarding a state over a DEP equals verifying it'
RULE = ('a case counts if the fast-forwarded part has at least two receipts or '
        'starts from an existing state; distinct by scenario, split and parser')
ASSUMPTIONS = ['fast-forwarding does not record receipt IDs (the state has a '
        'command of its own for that); on a DEP that does not verify the '
        'resulting state is left open']


def forward(reg, dep, key, chunk, parser, lay, how):
    """ fast-forwards reg along dep the way the commands do """
    p = make_parser(parser, dep, lay)
    n = 0
    for c in p.parse(chunk):
        for recs, cert, chain in c:
            n += 1
            if how == 'update':
                reg.updateFromDEPGroup(recs, key)
            else:
                before = reg_facts(reg)
                new = verification_state.CashRegisterState.fromDEPGroup(reg,
                        recs, key)
                expect_eq(reg_facts(reg), before, 'the old state')
                reg = new
    return reg, n


def gen(d, lo=1, hi=14):
    sp = world(d, min_recs=lo, max_recs=hi, aes=None)
    n = len(sp['recs'])
    return {'w': sp, 'cut': d.choice([0, 0, d.int(0, n - 1)]),
            'chunk': d.choice([0, 1, 1, 2, 2, 3, 5, d.int(1, n), 100]),
            'parser': d.choice(['certless', 'certless', 'dict', 'file']),
            'layout': layout(d), 'key': d.bool(3, 4), 'empty': d.bool(1, 8),
            'how': d.choice(['update', 'from']), 'json': d.bool(),
            'arb': d.bool(1, 3)}


def run(case, ctx):
    w = sim.World(case['w'])
    ks = w.keystore(trust='all')
    key = w.aes if case['key'] else None
    cut = case['cut']

    def part(a, b):
        p = sim.World(case['w'])
        p.jws, p.recdev = w.jws[a:b], w.recdev[a:b]
        return p.dep()
    m = RefState()
    arb = case.get('arb') and cut
    if arb:
        # from a state made from the receipt
        rec, prefix = receipt.Receipt.fromJWSString(w.jws[cut])
        js = verification_state.ClusterState.fromArbitraryReceipt(rec, prefix,
                key).writeStateToJson()
        m.regs.append(js['cashRegisters'][0])
        if key is not None:
            m.regs[0]['lastTurnoverCounter'] = w.counters[cut - 1]
    elif cut:
        r = ref_verify(part(0, cut), ks, key, m)
        m = r[1]
    else:
        from ..ref import new_reg
        m.regs.append(new_reg())
    st = load_state(ref_norm(m))
    r = ref_verify(part(cut, None), ks, key, m, 0)
    if r[0] == '?':
        ctx.trivial()
        return
    if arb and r[0] != 'ok' and w.spec['recs'][cut - 1]['b']:
        # the restore receipt need not be the one after the given one
        ctx.trivial()
        return
    if arb:
        ctx.label('from a receipt')
    expect_eq(r[0], 'ok', 'reference on a conforming DEP (%r)' % (r[1:],))
    if cut + 1 >= len(w.jws) and not cut:
        ctx.trivial()
    reg, n = forward(st.cashRegisters[0], part(cut, None), key, case['chunk'],
            case['parser'], case['layout'], case['how'])
    st.cashRegisters[0] = reg
    if case['empty']:
        # an empty group changes nothing
        reg.updateFromDEPGroup([], key)
    ctx.label(case['how'], 'chunks%d' % min(n, 3), 'key' if key else 'no key')
    if r[1].regs[0]['needRestoreReceipt']:
        ctx.label('restore pending')
    if w.jws and sim.fields(w.jws[-1])[9] in ('U1RP', 'VFJB'):
        ctx.label('ends in %s' % sim.fields(w.jws[-1])[9])
    expect_eq(dump_state(st)['cashRegisters'], r[1].regs,
            'register after fast-forwarding')
    # the real verification agrees as well
    got = run_path(part(cut, None), ks, key, DEP if not case['w'].get('multi')
            else {'p': 'dict', 'chunk': 3}, load_state(ref_norm(m)), 0)
    expect_eq(got[0], 'ok', 'verdict on a conforming DEP (%r)' % (got[1:],))
    expect_eq(got[1]['cashRegisters'], dump_state(st)['cashRegisters'],
            'fast-forwarded and verified register')


def gen_c(d):
    c = gen_cluster(d)
    c['op'] = 'none'
    for g in c['regs']:
        for r in g['recs']:
            r.pop('o', None)
    ids = {}
    c['closed'] = True
    c['chunk'] = d.choice([0, 1, 2, 3, 50])
    c['layout'] = layout(d)
    return c


def run_c(case, ctx):
    """ all registers of a cluster, then one more DEP is verified """
    from ..strategies import KIDS
    for i, dv in enumerate(case['devs']):
        dv.setdefault('kid', KIDS[i])
    ws = worlds_of(case)
    key = ws[0].aes if case['key'] else None
    ks = ws[0].keystore(trust='all')
    st = verification_state.ClusterState()
    m = RefState()
    for i, w in enumerate(ws[:-1]):
        r = ref_verify(w.dep(), ks, key, m)
        if r[0] != 'ok':
            ctx.trivial()
            return
        m = r[1]
        st.addNewCashRegister()
        forward(st.cashRegisters[i], w.dep(), key, case['chunk'], 'certless',
                case['layout'], 'update')
    expect_eq(dump_state(st)['cashRegisters'], m.regs, 'fast-forwarded cluster')
    ctx.label('registers%d' % len(ws))
    st = load_state(dump_state(st))
    for rec in (r for w in ws[:-1] for r in w.spec['recs']):
        m.used.discard(rec['id'])
    r = ref_verify(ws[-1].dep(), ks, key, m)
    if r[0] != 'ok':
        ctx.label('last register not conforming')
        return
    got = run_path(ws[-1].dep(), ks, key, DEP if not case['multi'] else
            {'p': 'dict', 'chunk': 2}, st, None)
    expect(got[0] == 'ok', 'next register refused after fast-forwarding: %s',
            got[1:])
    expect_eq(got[1], ref_norm(r[1]), 'state after the last register')


# -------------------------------------------------------- malformed receipts

def gen_bad(d):
    sp = world(d, min_recs=1, max_recs=4)
    n = len(sp['recs'])
    return {'w': sp, 'at': d.int(0, n - 1), 'with': d.choice(['', 'x', 'a.b',
        'a.b.c', 'é', 'cut', 'pay', 'enc', 'no-alg']), 'cut': d.int(0, 90),
        'chunk': d.choice([0, 1, 2]), 'key': d.bool()}


def run_bad(case, ctx):
    w = sim.World(case['w'])
    j = w.jws[case['at']]
    b = case['with']
    f = sim.fields(j)
    if b == 'cut':
        b = j[:case['cut']]
    elif b == 'pay':
        b = sim.resign(f[:-1], 1)
    elif b == 'enc':
        f[9] = 'AAAA'
        b = sim.resign(f, 1)
    elif b == 'no-alg':
        f[0] = f[0].replace('R1', 'R9')
        b = sim.resign(f, 1)
    w.jws[case['at']] = b
    key = w.aes if case['key'] else None
    reg = verification_state.CashRegisterState()
    ctx.label(case['with'])
    try:
        forward(reg, w.single(), key, case['chunk'], 'dict', None, 'update')
        ctx.label('passed')
    except Err as e:
        str(e)
        ctx.label('refused')
        return
    # receipts that are not looked at may pass, the last one may not
    expect(case['at'] != len(w.jws) - 1 or b == j, 'malformed last receipt '
            'accepted: %r', b)


SUBS = [Sub('register', gen, run, 5000),
        Sub('long', lambda d: gen(d, 60, 200), run, 40), Sub('cluster', gen_c, run_c, 1500),
        Sub('malformed', gen_bad, run_bad, 6000)]
