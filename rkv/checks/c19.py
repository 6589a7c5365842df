import copy
import json
import pickle

from .. import sim
from ..paths import (UNIQUE, SORTED, load_state, dump_state, verdict, run_path,
        verification_state, utils, keystore, DEP)
from ..ref import RefState, Natural, new_reg, ref_norm, ref_verify, natural_key
from ..runner import Sub, expect, expect_eq
from ..strategies import world, path, any_text, json_value, Ids

ID = 'C19'
TITLE = 'The verification state survives storage and admin operations'
RULE = ('ops: the state was changed at least twice; malformed: the document '
        'differs from a written state; weird: the state contains made up '
        'values; distinct by operations or document')
ASSUMPTIONS = ['truth values as turnover counters and empty strings as '
        'receipts in a state file are left open, and so is which start receipt a '
        'register has that was preset with a start but no last receipt']

INT = verification_state.InvalidCashRegisterIndexException
NOSTART = verification_state.NoStartReceiptForLastCashRegisterException
REG = verification_state.CashRegisterState


def gen_ops(d):
    natural = d.bool(1, 3)
    sp = world(d, min_recs=2, max_recs=8, closed=d.bool(3, 4), multi=False,
            id_style=d.choice(['num', 'pad']) if natural else None)
    n = len(sp['recs'])

    def op(i):
        k = d.choice(['add', 'add', 'del', 'reset', 'last', 'counter', 'chain',
            'toggle', 'start', 'used', 'copyreg', 'json', 'json', 'file',
            'copy', 'verify', 'verify', 'verify', 'info', 'update', 'badidx',
            'infonone'])
        if k in ('del', 'reset', 'toggle', 'info', 'badidx'):
            return [k, d.int(0, 5)]
        if k in ('last', 'start'):
            return [k, d.int(0, 5), d.choice([None] + list(range(n)))]
        if k == 'counter':
            return [k, d.int(0, 5), d.choice([0, 1, -1, 10 ** 6, -2 ** 63,
                2 ** 127])]
        if k == 'chain':
            return [k, d.int(0, 5), d.choice([None, 'AAAAAAAAAAA=', 'x', 'é'])]
        if k == 'used':
            ids = [r['id'] for r in sp['recs']]
            return [k, [d.choice(ids) if d.bool() else any_text(d) for _ in
                range(d.int(0, 4))]]
        if k == 'copyreg':
            return [k, d.int(0, 5), d.int(0, 5)]
        if k == 'update':
            return [k, d.int(0, 5), d.int(0, n - 1), d.int(-5, 5), d.bool()]
        if k == 'verify':
            a = d.int(0, n - 1)
            return [k, d.choice([None, 0, 0, 1, 2, 'last']), a,
                    d.int(a + 1, n), path(d, n)]
        return [k]
    ops = d.list(1, 16, op)
    if d.bool():
        # a regular start, so that later instalments fit
        m = d.int(1, n)
        ops[:0] = [['verify', None, 0, m, path(d, n)]]
        if m < n:
            ops.append(['verify', 0, m, n, path(d, n)])
    return {'w': sp, 'ops': ops, 'natural': natural, 'key': d.bool()}


def odd(reg):
    """ a start receipt, but no last receipt: contradicts itself """
    return bool(reg['startReceiptJWS']) and not reg['lastReceiptJWS']


def run_ops(case, ctx):
    w = sim.World(case['w'])
    ksj = w.keystore(trust='all')
    ks = keystore(ksj)
    key = w.aes if case['key'] else None
    nat = case['natural']
    backend = SORTED if nat else UNIQUE
    st = verification_state.ClusterState(backend)
    m = RefState(nat)
    changes = 0
    forks = []

    def fails(cls, fn, what):
        before = dump_state(st)
        r = verdict(fn)
        expect(r[0] == 'bad', '%s succeeded', what)
        expect(isinstance(r[2], cls), '%s: wrong error %r', what, r[2])
        return before

    for op in case['ops']:
        o = op[0]
        n = len(m.regs)
        changes += o not in ('json', 'file', 'copy', 'info', 'badidx')
        if o == 'add':
            if n and not m.regs[-1]['startReceiptJWS']:
                fails(NOSTART, st.addNewCashRegister, 'adding a register')
            else:
                st.addNewCashRegister()
                m.regs.append(new_reg())
        elif o == 'infonone':
            if n and not m.regs[-1]['startReceiptJWS']:
                fails(NOSTART, lambda: st.getCashRegisterInfo(None),
                        'information on a new register')
            else:
                prev, reg, used = st.getCashRegisterInfo(None)
                expect_eq(prev, m.regs[-1]['startReceiptJWS'] if n else None,
                        'start receipt of the previous register')
                m.regs.append(new_reg())
        elif o == 'badidx':
            for i in (-1 - op[1], n + 1 + op[1]):
                fails(INT, lambda: st.getCashRegisterInfo(i), 'index %d' % i)
                fails(INT, lambda: st.updateCashRegisterInfo(i, REG(),
                    backend()), 'index %d' % i)
            fails(INT, lambda: st.updateCashRegisterInfo(n, REG(), backend()),
                    'index %d' % n)
        elif o in ('json', 'file'):
            js = st.writeStateToJson()
            text = json.dumps(js, indent=2 if o == 'file' else None,
                    ensure_ascii=o == 'json')
            old = st
            st = verification_state.ClusterState.readStateFromJson(
                    json.loads(text))
            expect(old.cashRegisters == st.cashRegisters
                    and old.usedReceiptIds == st.usedReceiptIds,
                    'a loaded state differs from the saved one')
        elif o == 'copy':
            forks.append((copy.deepcopy(st), m.copy()))
            st = pickle.loads(pickle.dumps(st))
        elif o == 'used':
            m.used = Natural() if nat else set()
            st.usedReceiptIds = backend()
            for x in op[1]:
                st.usedReceiptIds.add(x)
                m.used.add(x)
        elif o == 'verify':
            i = op[1]
            if i == 'last':
                i = max(0, n - 1)
            if i is not None and i < n and odd(m.regs[i]):
                continue
            p = sim.World(case['w'])
            p.jws, p.recdev = w.jws[op[2]:op[3]], w.recdev[op[2]:op[3]]
            dep = p.dep()
            r = ref_verify(dep, ksj, key, m, i)
            if r[0] == '?':
                continue
            got = run_path(dep, ks, key, op[4], st, i, backend)
            ctx.label('verify:' + r[0])
            expect_eq(got[0], r[0], 'verdict (reference: %r, got %r)'
                    % (r[1:], got[1:]))
            if got[0] == 'ok':
                m = r[1]
                st = load_state(got[1])
        elif o == 'update':
            if n:
                i = op[1] % n
                prev, reg, used = st.getCashRegisterInfo(i)
                expect_eq(prev, m.regs[i - 1]['startReceiptJWS'] if i else
                        None, 'start receipt of the previous register')
                reg.lastReceiptJWS = w.jws[op[2]]
                reg.lastTurnoverCounter += op[3]
                used.add('new-id')
                # nothing is changed until the update
                expect_eq(dump_state(st), ref_norm(m), 'state changed through '
                        'the information on a register')
                if op[4]:
                    i = n - 1
                    st.updateCashRegisterInfo(None, reg, used)
                    m.regs[i] = dict(m.regs[op[1] % n])
                else:
                    st.updateCashRegisterInfo(i, reg, used)
                m.regs[i] = dict(m.regs[i], lastReceiptJWS=w.jws[op[2]],
                        lastTurnoverCounter=m.regs[i]['lastTurnoverCounter']
                        + op[3])
                m.used.add('new-id')
        elif n:
            i = op[1] % n
            if o == 'del':
                del st.cashRegisters[i]
                del m.regs[i]
            elif o == 'reset':
                st.updateCashRegisterInfo(i, REG(), backend())
                m.regs[i] = new_reg()
                m.used = Natural() if nat else set()
            elif o in ('last', 'start'):
                v = None if op[2] is None else w.jws[op[2]]
                a = o + 'ReceiptJWS'
                setattr(st.cashRegisters[i], a, v)
                m.regs[i] = dict(m.regs[i], **{a: v})
            elif o == 'counter':
                st.cashRegisters[i].lastTurnoverCounter = op[2]
                m.regs[i] = dict(m.regs[i], lastTurnoverCounter=op[2])
            elif o == 'chain':
                st.cashRegisters[i].chainNextTo = op[2]
                m.regs[i] = dict(m.regs[i], chainNextTo=op[2])
            elif o == 'toggle':
                c = st.cashRegisters[i]
                c.needRestoreReceipt = not c.needRestoreReceipt
                m.regs[i] = dict(m.regs[i],
                        needRestoreReceipt=not m.regs[i]['needRestoreReceipt'])
            elif o == 'copyreg':
                src = load_state(json.loads(json.dumps(st.writeStateToJson())))
                st.cashRegisters[i] = src.cashRegisters[op[2] % n]
                m.regs[i] = dict(m.regs[op[2] % n])
            elif o == 'info':
                prev, reg, used = st.getCashRegisterInfo(i)
                expect_eq(prev, m.regs[i - 1]['startReceiptJWS'] if i else
                        None, 'start receipt of the previous register')
                # these are copies
                reg.lastTurnoverCounter += 1
                reg.lastReceiptJWS = 'x.y.z'
                used.add('\U0001f4b6 99')
                # so is what is written
                js = st.writeStateToJson()
                js['cashRegisters'][i]['needRestoreReceipt'] = None
                js['cashRegisters'].pop()
        expect_eq(dump_state(st), ref_norm(m), 'state after %r' % op[:2])
        ctx.label(o)
    for f, fm in forks:
        expect_eq(dump_state(f), ref_norm(fm), 'independent copy')
    if changes < 2:
        ctx.trivial()


# ---------------------------------------------------------------- malformed

def gen_malformed(d):
    regs = []
    for i in range(d.choice([1, 1, 2, 3, d.int(0, 14)])):
        regs.append({'startReceiptJWS': d.choice([None, 'x.y.z', 'é']),
            'lastReceiptJWS': d.choice([None, 'x.y.z']),
            'lastTurnoverCounter': d.choice([0, -5, 2 ** 100, d.int(-10 ** 9,
                10 ** 9)]),
            'needRestoreReceipt': d.bool(),
            'chainNextTo': d.choice([None, 'AAAA'])})
    nat = d.bool()
    used = {'backendType': 'USED_RECEIPT_IDS_SORTED_NATURAL', 'backendData':
            {'minId': d.choice([None, '1', '']), 'maxId': d.choice([None,
                '9', ''])}} \
            if nat else {'backendType': 'USED_RECEIPT_IDS_UNIQUE',
            'backendData': sorted({any_text(d) for i in
                range(d.int(0, 3))})}
    js = {'cashRegisters': regs, 'usedReceiptIds': used}
    op = d.choice(['none', 'none', 'none', 'root', 'del', 'regs', 'reg',
        'regdel', 'regtype',
        'regtype', 'regtype', 'used', 'useddel', 'type', 'data', 'extra'])
    if not regs:
        op = d.choice(['none', 'root', 'del', 'used', 'useddel', 'type',
            'data'])
        regs.append({'x': None})
    i = d.int(0, len(regs) - 1)
    k = d.choice(sorted(regs[0]))
    bad = op not in ('none', 'extra')
    if op == 'root':
        js = d.choice([None, [], 'x', 1, [js], regs])
    elif op == 'del':
        x = d.choice(sorted(js))
        js[d.choice([x.lower(), 'x'])] = js.pop(x)
    elif op == 'regs':
        js['cashRegisters'] = d.choice([None, {}, 'x', 1, True, regs[0]])
    elif op == 'reg':
        regs[i] = d.choice([None, [], 'x', 1, True, [regs[0]]])
    elif op == 'regdel':
        del regs[i][k]
    elif op == 'regtype':
        regs[i][k] = d.choice({'lastTurnoverCounter': [None, 'x', '0', 1.5, 0.0,
            [], {}], 'needRestoreReceipt': [None, 0, 1, 'true', 'false', '', [],
                {}, 1.0]}.get(k, [0, 1, 1.5, [], {}, ['x'], False, True]))
    elif op == 'used':
        js['usedReceiptIds'] = d.choice([None, [], ['a'], 'x', 1])
    elif op == 'useddel':
        del used[d.choice(sorted(used))]
    elif op == 'type':
        used['backendType'] = d.choice([None, 1, [], {}, '', 'x',
            'USED_RECEIPT_IDS_INVALID', 'used_receipt_ids_unique',
            'USED_RECEIPT_IDS_UNIQUE' if nat else
            'USED_RECEIPT_IDS_SORTED_NATURAL'])
    elif op == 'data':
        used['backendData'] = d.choice([None, 1, 'x', {}, {'minId': '1'},
            {'maxId': '1'}, {'minId': 1, 'maxId': '1'},
            {'minId': '1', 'maxId': 1}, {'minId': '1', 'maxId': []}] + ([[],
                ['1']] if nat else [[1], ['a', None], [['a']], ['a', {}]]))
    if regs[0] == {'x': None}:
        del regs[0]
    if op == 'extra':
        js['x'] = regs[i]['x'] = used['x'] = json_value(d)
    return {'js': js, 'bad': bad, 'op': op}


def run_malformed(case, ctx):
    js = case['js']
    ctx.label(case['op'])
    if case['op'] == 'none':
        ctx.trivial()
    try:
        st = verification_state.ClusterState.readStateFromJson(js)
    except verification_state.StateParseException as e:
        str(e)
        expect(case['bad'], 'well-formed state refused: %s', e)
        return
    expect(not case['bad'], 'malformed state accepted')
    if case['op'] == 'none':
        expect_eq(dump_state(st), json.loads(json.dumps(js)), 'loaded state')


# -------------------------------------------------------------------- weird

def gen_weird(d):
    sp = world(d, min_recs=1, max_recs=4, closed=d.bool(), multi=False)

    def val(i=0):
        return d.choice([None, 'x', 'x.y.z', 'a.b', '..', 'é.é.é', 'last',
            'cut', 'long', any_text(d)])
    regs = [{'startReceiptJWS': val(), 'lastReceiptJWS': val(),
        'lastTurnoverCounter': d.choice([0, 2 ** 200, -1]),
        'needRestoreReceipt': d.bool(), 'chainNextTo': d.choice([None, 'x',
            any_text(d)])} for _ in range(d.int(1, 3))]
    return {'w': sp, 'regs': regs, 'idx': d.choice([None, 0, 1, 2]),
            'path': path(d, 4), 'key': d.bool(), 'cut': d.int(0, 200)}


def run_weird(case, ctx):
    w = sim.World(case['w'])
    j = w.jws[-1]
    sub = {'last': j, 'cut': j[:case['cut']], 'long': j + 'A'}
    regs = [dict(r, startReceiptJWS=sub.get(r['startReceiptJWS'],
        r['startReceiptJWS']), lastReceiptJWS=sub.get(r['lastReceiptJWS'],
        r['lastReceiptJWS'])) for r in case['regs']]
    js = {'cashRegisters': regs, 'usedReceiptIds': {'backendType':
        'USED_RECEIPT_IDS_UNIQUE', 'backendData': []}}
    st = load_state(js)
    m = RefState()
    m.regs = json.loads(json.dumps(regs))
    ksj = w.keystore(trust='all')
    key = w.aes if case['key'] else None
    r = ref_verify(w.dep(), ksj, key, m, case['idx'])
    got = run_path(w.dep(), ksj, key, case['path'], st, case['idx'])
    ctx.label(got[0])
    expect_eq(dump_state(st) if case['idx'] is not None else None, js
            if case['idx'] is not None else None, 'state object passed')
    if r[0] == '?':
        return
    expect_eq(got[0], r[0], 'verdict (reference: %r, got %r)' % (r[1:],
        got[1:]))
    if got[0] == 'ok' and not any(odd(x) for x in regs):
        expect_eq(got[1], ref_norm(r[1]), 'state')


SUBS = [Sub('ops', gen_ops, run_ops, 4000),
        Sub('malformed', gen_malformed, run_malformed, 24000),
        Sub('weird', gen_weird, run_weird, 4000)]
