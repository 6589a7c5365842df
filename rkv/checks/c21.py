import json

from .. import sim
from ..paths import (UNIQUE, SORTED, load_state, dump_state, verification_state,
        receipt, run_path, verdict)
from ..ref import RefState, ref_norm, ref_verify, new_reg, Rec, Bad, Unknown
from ..runner import Sub, expect, expect_eq
from ..strategies import world, path
from .c11 import gen as gen_cluster, worlds_of

ID = 'C21'
TITLE = 'A state made from any receipt continues exactly after it'
RULE = ('a case counts if the receipt is not the first of the register; '
        'distinct by scenario, receipt and continuation')
ASSUMPTIONS = ['a missing null receipt can not be noticed if only the receipt '
        'after the failure is known; without AES key, or for dummy and '
        'reversal receipts, the counter is not known (README)']

OPS = ['true', 'true', 'true', 'skip', 'chain', 'date', 'reg', 'delta',
        'delta0', 'sig', 'repeat', 'system', 'sums', 'id']


def gen(d):
    natural = d.bool(1, 5)
    sp = world(d, min_recs=2, max_recs=10, multi=False, ndev=1,
            id_style=d.choice(['num', 'pad']) if natural else None)
    n = len(sp['recs'])
    k = d.int(0, n - 1)
    end = d.int(k + 1, n)
    return {'w': sp, 'k': k, 'end': end, 'op': d.choice(OPS), 'at':
            d.int(k, end - 1), 'key': d.bool(3, 4), 'form': d.choice(['jws',
                'qr', 'ocr', 'csv', 'jws']), 'json': d.bool(), 'path':
            path(d, n), 'natural': natural, 'v': d.choice([1, -1, 100,
                5000]), 'prefix': d.choice([None] * 6 + ['R2', 'R', '', 'r1'])}


def read(form, j):
    R = receipt.Receipt
    if form == 'csv' and any(c in f for f in sim.fields(j) for c in ';\n\r'
            ) or form == 'csv' and any(f != f.strip() for f in sim.fields(j)):
        form = 'jws'
    return {'jws': lambda: R.fromJWSString(j), 'qr': lambda: R.fromBasicCode(
        sim.qr(j)), 'ocr': lambda: R.fromOCRCode(sim.ocr(j)), 'csv':
        lambda: R.fromCSV(sim.csv(j))}[form]()


def run(case, ctx):
    k, end, op, at = case['k'], case['end'], case['op'], case['at']
    w = sim.World(case['w'])
    key = w.aes if case['key'] else None
    ks = w.keystore(trust='all')
    backend = SORTED if case['natural'] else UNIQUE
    r, prefix = read(case['form'], w.jws[k])
    st = verification_state.ClusterState.fromArbitraryReceipt(r, prefix, key,
            backend)
    wrong = case.get('prefix')
    if wrong is not None:
        got = verdict(lambda: verification_state.ClusterState.
            fromArbitraryReceipt(r, wrong, key, backend))
        expect_eq(got[1] if got[0] == 'bad' else got[0],
            'UnknownAlgorithmException', 'state for algorithm %r' % wrong)
    if case['json']:
        st = load_state(json.loads(json.dumps(st.writeStateToJson())))
    f = sim.fields(w.jws[k])
    expect_eq(len(st.cashRegisters), 1, 'number of registers')
    # the counter before this receipt
    std = f[9] not in (sim.b64(b'TRA'), sim.b64(b'STO'))
    known = key is not None and std
    before = w.counters[k - 1] if k else 0
    if known:
        expect_eq(st.cashRegisters[0].lastTurnoverCounter, before, 'counter')
    js = st.writeStateToJson()['usedReceiptIds']['backendData']
    expect_eq(js, {'minId': None, 'maxId': None} if case['natural'] else [],
            'used IDs')
    if key is not None and not std and before != 0:
        # README: the counter can not be determined
        st.cashRegisters[0].lastTurnoverCounter = before

    # the continuation: the DEP section beginning with that receipt
    sp = json.loads(json.dumps(case['w']))
    recs = sp['recs']
    if op not in ('true', 'skip', 'repeat', 'system'):
        o = recs[at].setdefault('o', {})
        if op == 'chain':
            o['chain'] = sim.chain_value('?')
        elif op == 'date':
            o['ts'] = sim.stamp(max(-62135596800, min(x['t'] for x in recs[k:
                end]) - case['v'] - 1000))
        elif op == 'reg':
            o['reg'] = sp['reg'] + 'x'
        elif op == 'delta':
            o['delta'] = case['v']
        elif op == 'delta0':
            # consistent counters with another start value
            for x in recs[k:]:
                x.setdefault('o', {})['delta'] = case['v']
        elif op == 'sig':
            o['key'] = 424242
        elif op == 'sums':
            c = list(recs[at]['c'])
            c[0] += case['v']
            o['sums'] = [sim.money(x) for x in c]
        elif op == 'id':
            others = [x['id'] for x in recs[k:end] if x is not recs[at]]
            if others:
                o['rid'] = others[case['v'] % len(others)]
    w2 = sim.World(sp)
    part = list(w2.jws[k:end])
    if op in ('delta', 'delta0', 'sums', 'id', 'sig', 'date', 'chain', 'reg'):
        # everything before the receipt is as before
        expect_eq(w2.jws[:k], w.jws[:k], 'harness')
    if op == 'skip':
        part = part[1:] or [w.jws[k - 1]]
    elif op == 'repeat':
        part.insert(0, part[0])
    elif op == 'system':
        x = sim.fields(part[-1])
        if w.closed:
            x[0], x[10] = 'R1-AT1', 'abc'
        else:
            x[0], x[10] = 'R1-AT0', 'U:A'
        part[-1] = sim.resign(x, w.devs[0].key)
        kj = sim.KeyStoreJson()
        kj.map = ks['certificateOrPublicKeyMap']
        kj.pubkey('U:A' if not w.closed else 'abc', w.devs[0].key)
        ks = kj.json()
    dep = {'Belege-Gruppe': [sim.group(part)]}

    # the reference, from what is known: a predecessor with the date and the
    # register of the given receipt, whose signature is not a failed one
    m = RefState(case['natural'])
    reg = new_reg()
    pf = list(f)
    pf[2] = '\u0001 not an ID'
    pf[4:9] = sim.NULL5
    pf[9] = sim.b64(b'x' * 8)
    reg['lastReceiptJWS'] = sim.resign(pf, 1)
    reg['chainNextTo'] = f[11]
    reg['lastTurnoverCounter'] = before if key else 0
    m.regs.append(reg)
    ref = ref_verify(dep, ks, key, m, 0)
    ctx.label(op, case['form'])
    if not k:
        ctx.trivial()
    if ref[0] == '?':
        return
    if op == 'true':
        # counters of unknown receipts are only right by chance
        ok = ref[0] == 'ok' or (k and case['w']['recs'][k - 1]['b'])
        expect(ok, 'harness: %r', ref[1:])
    got = run_path(dep, ks, key, case['path'], st, 0, backend)
    expect_eq(got[0], ref[0], 'verdict on the continuation (reference: %r, '
            'librksv: %r)' % (ref[1:], got[1:]))
    if op in ('skip', 'repeat', 'chain', 'reg', 'sig'):
        b = case['w']['recs'][at]['b'] if op == 'sig' else False
        expect(b or got[0] == 'bad', 'wrong continuation (%s) accepted', op)
    if got[0] == 'ok':
        expect_eq(got[1], ref_norm(ref[1]), 'state after the continuation')
        # and on to the rest of the true history
        if op == 'true' and end < len(w.jws):
            rest = {'Belege-Gruppe': [sim.group(w.jws[end:])]}
            got = run_path(rest, ks, key, case['path'], load_state(got[1]), 0,
                    backend)
            expect(got[0] == 'ok', 'rest of the DEP refused: %s', got[1:])


# ----------------------------------------------------------- start receipts

def gen_s(d):
    c = gen_cluster(d)
    c['op'] = 'none'
    c['closed'] = True
    for g in c['regs']:
        for r in g['recs']:
            r.pop('o', None)
    c['bad'] = d.choice([None, None, 'chain', 'second', 'other'])
    c['form'] = d.choice(['jws', 'qr', 'ocr'])
    return c


def run_s(case, ctx):
    from ..strategies import KIDS
    for i, dv in enumerate(case['devs']):
        dv.setdefault('kid', KIDS[i])
    ws = worlds_of(case)
    i = case['which']
    w = ws[i]
    key = w.aes if case['key'] else None
    ks = w.keystore(trust='all')
    r, prefix = read(case['form'], w.jws[0])
    st = verification_state.ClusterState.fromArbitraryStartReceipt(r)
    want = new_reg()
    want['chainNextTo'] = sim.fields(w.jws[0])[11]
    expect_eq(dump_state(st)['cashRegisters'], [want], 'state')
    dep = w.dep()
    bad = case['bad']
    if bad == 'chain':
        x = sim.World(w.spec, None)
        dep = x.dep()
    elif bad == 'other' and len(ws) > 2:
        j = i + 1 if i + 1 < len(ws) else i - 1
        dep = ws[j].dep()
    elif bad == 'second' and len(w.jws) > 1:
        p = sim.World(w.spec, ws[i - 1].jws[0])
        p.jws, p.recdev = w.jws[1:], w.recdev[1:]
        dep = p.dep()
    else:
        bad = None
    ctx.label(str(bad))
    m = RefState()
    m.regs.append(want)
    p = case['paths'][0]
    got = run_path(dep, ks, key, p, st, 0)
    if bad:
        expect(got[0] == 'bad', 'wrong start receipt accepted (%s)', bad)
        return
    ref = ref_verify(dep, ks, key, m, 0)
    if ref[0] == '?':
        return
    expect_eq(got[0], ref[0], 'verdict (%r, %r)' % (ref[1:], got[1:]))
    expect(got[0] == 'ok', 'true continuation refused: %s', got[1:])
    expect_eq(got[1], ref_norm(ref[1]), 'state')
    # the following register of the cluster
    if i + 1 < len(ws):
        ids = {x['id'] for x in w.spec['recs']}
        ref = ref_verify(ws[i + 1].dep(), ks, key, ref[1])
        got = run_path(ws[i + 1].dep(), ks, key, case['paths'][1],
                load_state(got[1]), None)
        expect_eq(got[0], ref[0], 'verdict on the next register (%r, %r)' %
                (ref[1:], got[1:]))


SUBS = [Sub('receipt', gen, run, 6000), Sub('start', gen_s, run_s, 2000)]
