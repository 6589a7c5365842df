import contextlib
import datetime
import io
import json
import os
import random
import runpy
import shutil
import sys
import tempfile

from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature

from .. import env, sim
from ..paths import (run_path, DEP, load_state, key_store, utils, receipt,
        algorithms)
from ..ref import ref_verify, RefState
from ..runner import Sub, expect, expect_eq
from ..strategies import (KIDS, SERIALS, TEXT_POOL, BASES, any_text, reg_id,
        path)

from librksv import cashreg, sigsys, run_test

ID = 'C23'
TITLE = 'The cash register generator only writes conforming DEPs'
RULE = ('a case counts if at least two receipts are generated; distinct by '
        'instructions and configuration')
ASSUMPTIONS = ['amounts are given with two decimals and below 10^9 (the '
        'register takes floats)', 'counters stay in the range of their size',
        'years from 1000']

MAXC = 10 ** 9
YEAR1000 = -30610224000


def valid_sig(key, signing_input, raw):
    if len(raw) != 64:
        return False
    try:
        sim.pub(key).verify(encode_dss_signature(int.from_bytes(raw[:32],
            'big'), int.from_bytes(raw[32:], 'big')), signing_input.encode(),
            ec.ECDSA(hashes.SHA256()))
        return True
    except Exception:
        return False


def check_jws(j, pl, key, header=sim.HEADER):
    """ the payload, signed with key or (None) marked as not signed """
    expect_eq(j.count('.'), 2, 'segments')
    h, p, s = j.split('.')
    expect_eq(sim.jws_parts(j)[:2], (header, pl), 'signed text')
    expect_eq((h, p), (sim.b64u(header.encode()), sim.b64u(pl.encode('utf-8'))),
            'encoding of the signed text')
    if key is None:
        expect_eq(s, sim.b64u(sim.BROKEN_SIG), 'failure notice')
    else:
        expect(valid_sig(key, h + '.' + p, sim.unb64u(s)), 'signature is not '
                'valid')


# ------------------------------------------------------------ CashRegister

FIELDS = ['zda', 'registerId', 'receiptId', 'dateTime', 'sumA', 'sumB', 'sumC',
        'sumD', 'sumE', 'encTurnoverCounter', 'certSerial', 'previousChain']


def amount(d):
    return d.choice([0, 0, 1, -1, 99, 100, -100, 5, 10, -10, 123456789, 29,
        57, 115, 1005, -MAXC * 100, MAXC * 100]) if d.bool() else d.int(-10 **
                d.int(1, 11), 10 ** d.int(1, 11))


def gen_register(d):
    size = d.int(5, 16)
    closed = d.bool()
    devs = d.list(1, 3, lambda i: [d.int(1, 6), 'AT0' if closed else d.choice(
        ['AT1', 'AT77', 'DE3']), d.choice(KIDS) if closed else '%x' %
        d.choice(SERIALS[:4])])

    def rec(i):
        r = {'id': d.choice(TEXT_POOL) if d.bool() else any_text(d), 't':
                max(YEAR1000, d.choice(BASES)) + d.int(0, 60), 'c': [0] * 5 if
                d.bool(1, 5) else [amount(d) for _ in range(5)], 'dummy':
                d.bool(1, 5), 'rev': d.bool(1, 5), 'dev': d.int(0, len(devs)
                - 1), 'broken': d.bool(1, 4)}
        if d.bool(1, 5):
            o = {}
            for _ in range(d.int(1, 2)):
                k = d.choice(FIELDS + ['turnoverCounter', 'turnoverCounterSize',
                    'header', 'signature', 'jwsOverride'])
                o[k] = {'turnoverCounter': d.int(-10 ** 6, 10 ** 6),
                        'turnoverCounterSize': d.int(5, 16),
                        'header': '{"alg": "ES256"}',
                        'signature': sim.b64u(b'x' * 64)}.get(k, d.choice([
                            'abc', '', '0', 'é']))
            r['o'] = o
        return r

    return {'reg': reg_id(d), 'aes': d.int(0, 3), 'size': size, 'counter':
            d.choice([0, 0, d.int(-10 ** 6, 10 ** 6)]), 'last': d.choice([None,
                None, 'a.b.c']), 'nosize': d.choice([4, 17, 0, -8, 1, 18, 32]),
            'devs': devs, 'recs': d.list(1, 8, rec)}


def run_register(case, ctx):
    aes = sim.aes_key(case['aes'])
    reg = cashreg.CashRegister(case['reg'], case['last'], case['counter'],
            aes, case['size'])
    try:
        cashreg.CashRegister(case['reg'], case['last'], case['counter'], aes,
                case['nosize'])
    except Exception:
        pass
    else:
        expect(False, 'counter of %d bytes accepted', case['nosize'])
    work = [sigsys.SignatureSystemWorking(z, s, sim.priv_pem(k))
            for k, z, s in case['devs']]
    broken = [sigsys.SignatureSystemBroken(z, s) for k, z, s in case['devs']]
    last, counter, size = case['last'], case['counter'], case['size']
    for r in case['recs']:
        o = dict(r.get('o', {}))
        if abs(counter) + sum(abs(x) for x in r['c']) >= 2 ** 39:
            break
        k, zda, ser = case['devs'][r['dev']]
        rec = reg.receipt('R1', r['id'], datetime.datetime(1970, 1, 1) +
                datetime.timedelta(seconds=r['t']), *[float(c) / 100 for c in
                    r['c']], (broken if r['broken'] else work)[r['dev']],
                r['dummy'], r['rev'], **({'override': o} if o else {}))
        ctx.label('broken' if r['broken'] else 'signed', 'TRA' if r['dummy']
                else 'STO' if r['rev'] else 'standard', *['o:' + x for x in o])
        size = o.get('turnoverCounterSize', size)
        if not r['dummy']:
            counter += sum(r['c'])
        counter = o.get('turnoverCounter', counter)
        regid = o.get('registerId', case['reg'])
        rid = o.get('receiptId', r['id'])
        if r['dummy']:
            enc = b'TRA'
        elif r['rev']:
            enc = b'STO'
        else:
            enc = sim.enc_counter(aes, regid, rid, counter, size)
        vals = [zda, regid, rid, sim.stamp(r['t'])] + [sim.money(c) for c in
                r['c']] + [sim.b64(enc), ser, sim.chain_value(last if last is
                    not None else regid)]
        f = [o.get(n, v) for n, v in zip(FIELDS, vals)]
        pl = sim.payload('R1', f[0], f[1], f[2], f[3], f[4:9], f[9], f[10],
                f[11])
        expect_eq(rec.toPayloadString('R1'), pl, 'payload')
        key = None if r['broken'] else k
        # the chain continues with what the device signed
        check_jws(reg.lastReceiptSig, pl, key)
        last = reg.lastReceiptSig
        j = rec.toJWSString('R1')
        if 'jwsOverride' in o:
            expect_eq(j, o['jwsOverride'], 'overridden JWS')
        else:
            h, p, s = last.split('.')
            expect_eq(j, '.'.join([sim.b64u(o['header'].encode()) if 'header'
                in o else h, p, o.get('signature', s)]), 'JWS')
        expect_eq(reg.turnoverCounter, counter, 'turnover counter')
    if len(case['recs']) < 2:
        ctx.trivial()


# ---------------------------------------------------------------- run_test

def cname(dev, n):
    return 'dev %d' % n


def gen_test(d):
    closed = d.bool()
    ndev = d.int(1, 3)
    groups = d.bool(2, 3)
    size = d.choice([None, 5, 6, 8, 16])
    spec = {'simulationRunLabel': 'x', 'cashBoxId': reg_id(d),
            'numberOfSignatureDevices': ndev, 'base64AesKey': sim.b64(
                sim.aes_key(d.int(0, 3))), 'companyID': d.choice(['U:ATU1234567'
                    '8', 'G:1234567890123', 'S:123456789'])}
    if groups:
        spec['multipleGroups'] = True
        if not closed and d.bool():
            spec['certChainLength'] = [d.int(0, 3) for _ in range(ndev)]
    if size:
        spec['turnoverCounterSize'] = size
    if not closed and d.bool(1, 3):
        spec['decimalSerial'] = True
    if d.bool(1, 4):
        spec['includePublicKey'] = True
    case = {'closed': closed, 'spec': spec, 'serials': d.sample(SERIALS, ndev),
            'tc': d.choice([None, None, None, 7, 11]), 'samekey': d.bool(),
            'rnd': d.int(0, 10 ** 6)}
    t = max(YEAR1000, d.choice(BASES))
    # per register: restore receipt due, device failed last, turnover
    regs = [[False, False, 0]]
    cur = 0
    ins = []
    rate = d.choice([5, 5, 2])
    for i in range(d.int(1, 12)):
        t = min(t + d.choice([0, 1, 3600, 86400]), 253402300799)
        r = {'receiptIdentifier': 'R%d' % i if d.bool() else '%d' % i,
                'dateToUse': sim.stamp(t), 'usedSignatureDevice': d.int(0,
                    ndev - 1), 'signatureDeviceDamaged': False}
        x = 'NO_NEW_DEP'
        if i and d.bool(1, rate):
            x = r['beginNewDEP'] = d.choice(['NEW_CONTINUED_DEP',
                'NEW_CLUSTER_DEP'] if closed else ['NEW_CONTINUED_DEP'])
            if x == 'NEW_CLUSTER_DEP':
                cur = len(regs)
                regs.append([False, False, 0])
            elif d.bool():
                cur = r['continueRegister'] = d.int(0, len(regs) - 1)
        need, prev, total = regs[cur]
        start = not i or x == 'NEW_CLUSTER_DEP'
        if start or need or d.bool(1, 5):
            c = [0] * 5
            kind = d.choice(['NULL_BELEG', 'STANDARD_BELEG', 'START_BELEG',
                None])
            need = prev = False
        else:
            c = [d.int(-10 ** 5, 10 ** 5) if d.bool() else 0 for _ in range(5)]
            if not any(c):
                c[0] = 1
            kind = d.choice(['STANDARD_BELEG'] * 3 + ['TRAINING_BELEG',
                'STORNO_BELEG'])
            if d.bool(1, 4):
                r['signatureDeviceDamaged'] = True
                prev = True
            else:
                need, prev = prev, False
        if kind:
            r['typeOfReceipt'] = kind
        r['simplifiedReceipt'] = dict(zip(['taxSetNormal', 'taxSetErmaessigt1',
            'taxSetErmaessigt2', 'taxSetNull', 'taxSetBesonders'], [v / 100
                for v in c]))
        ins.append(r)
        if kind != 'TRAINING_BELEG':
            total += sum(c)
        regs[cur] = [need, prev, total]
        if d.bool(1, 6) and total:
            r['annotateTurnoverCounter'] = total / 100
    spec['cashBoxInstructionList'] = ins
    # at most one requested defect
    k = d.int(0, 11)
    dev = d.int(0, ndev - 1)
    flags = [i == dev for i in range(ndev)]
    if k == 0 and groups:
        spec['omitRootCert'] = flags
    elif k == 1 and groups:
        spec['omitSignCert'] = flags
    elif k == 2 and spec.get('certChainLength', [0] * 3)[dev]:
        spec['certChainFailure'] = [(d.int(1, spec['certChainLength'][dev])
            if f else 0) for f in flags]
    elif k == 3 and groups and not closed:
        spec['certChainSerialCollision'] = flags
        # the fake certificate can only have a positive serial
        case['serials'] = [abs(x) for x in case['serials']]
    elif k in (4, 5):
        d.choice(ins)['override'] = d.choice([{'previousChain': 'AAAAAAAAAAA='},
            {'registerId': 'other'}, {'sumA': '1,00'}, {'sumB': '12,345'},
            {'turnoverCounter': 99}, {'signature': sim.b64u(b'y' * 64)},
            {'encTurnoverCounter': sim.b64(b'12345678')}, {'certSerial': '0'},
            {'algorithmPrefix': 'R2'}, {'dateTime': '1000-01-01T00:00:00'}])
    return case


def run_gen(case, ctx):
    spec = case['spec']
    ins = spec['cashBoxInstructionList']
    closed = case['closed']
    n = spec['numberOfSignatureDevices']
    keys = [1 if case['samekey'] else i + 1 for i in range(n)]
    ders = [sim.cert_der(keys[i], 'dev %d' % i, case['serials'][i], keys[i],
        'dev %d' % i) for i in range(n)]
    mat = [(sim.pub_pem(k) if closed else sim.der_pem(c), sim.priv_pem(k))
            for k, c in zip(keys, ders)]
    random.seed(case['rnd'])
    deps, ksj = run_test.runTest(json.loads(json.dumps(spec)), mat, closed,
            case['tc'])
    check_output(case, json.loads(json.dumps(deps)), json.loads(json.dumps(
        ksj)), ctx)


def index_f27(ins):
    """
    Known finding F27: a register that is started after an earlier one has been
    continued is taken for the one that follows the continued one.
    :return: for the files that continue a register: the file they name then
    (if that is not the right one)
    """
    res = {}
    right, wrong = [0], [0]       # last file of each register
    cur = wcur = x = 0
    for i, r in enumerate(ins):
        new = r.get('beginNewDEP', 'NO_NEW_DEP')
        if new == 'NO_NEW_DEP':
            continue
        right[cur] = wrong[wcur] = x
        x += 1
        if new == 'NEW_CLUSTER_DEP':
            cur, wcur = len(right), wcur + 1
            right.append(x)
            wrong.append(x)
        elif 'continueRegister' in r:
            cur = wcur = r['continueRegister']
            if right[cur] != wrong[cur]:
                res[x] = wrong[cur]
    return res


def check_output(case, deps, ksj, ctx):
    """ DEPs and key store are what the specification describes """
    spec = case['spec']
    ins = spec['cashBoxInstructionList']
    closed = case['closed']
    n = spec['numberOfSignatureDevices']
    keys = [1 if case['samekey'] else i + 1 for i in range(n)]
    aes = sim.base64.b64decode(spec['base64AesKey'])
    expect_eq(ksj.get('base64AESKey'), spec['base64AesKey'], 'AES key')
    size = case['tc'] or spec.get('turnoverCounterSize', 8)

    # --- the receipts, one by one
    groups = spec.get('multipleGroups', False)
    flat = [(di, gi, j) for di, dep in enumerate(deps) for gi, g in
            enumerate(dep['Belege-Gruppe']) for j in g['Belege-kompakt']]
    expect_eq(len(flat), len(ins), 'number of receipts')
    last, counter, start = None, 0, None
    regs = [(None, 0)]        # last receipt and counter of each register
    cur = 0
    di = gi = 0
    zdas = {}
    note = None
    override = False
    regof = []                # register of each DEP
    for i, (r, (gd, gg, j)) in enumerate(zip(ins, flat)):
        new = r.get('beginNewDEP', 'NO_NEW_DEP')
        dev = r['usedSignatureDevice']
        if new != 'NO_NEW_DEP':
            di, gi = di + 1, 0
            expect_eq(deps[di - 1].get('Umsatz-gesamt'), note, 'annotation')
            regs[cur] = last, counter
            if new == 'NEW_CLUSTER_DEP':
                cur = len(regs)
                regs.append((start, 0))
                start = None
            else:
                cur = r.get('continueRegister', cur)
            last, counter = regs[cur]
            regof.append(cur)
        elif i and groups and ins[i - 1]['usedSignatureDevice'] != dev:
            gi += 1
        if not i:
            regof.append(0)
        expect_eq((gd, gg), (di, gi), 'place of receipt %d' % i)
        note = r.get('annotateTurnoverCounter') or None
        s = r['simplifiedReceipt']
        c = [round(s[x] * 100) for x in ['taxSetNormal', 'taxSetErmaessigt1',
            'taxSetErmaessigt2', 'taxSetNull', 'taxSetBesonders']]
        kind = r.get('typeOfReceipt')
        o = r.get('override', {})
        f = sim.fields(j)
        alg, zda = f[0].split('-', 1)
        expect_eq(alg, o.get('algorithmPrefix', 'R1'), 'algorithm')
        expect(zda == 'AT0' if closed else zda[:2] == 'AT' and 1 <=
                int(zda[2:]) <= 999, 'ZDA %s', zda)
        expect_eq(zdas.setdefault(dev, zda), zda, 'ZDA')
        if kind != 'TRAINING_BELEG':
            counter += sum(c)
        counter = o.get('turnoverCounter', counter)
        reg = o.get('registerId', spec['cashBoxId'])
        enc = {'TRAINING_BELEG': b'TRA', 'STORNO_BELEG': b'STO'}.get(kind) or \
                sim.enc_counter(aes, reg, r['receiptIdentifier'], counter,
                        size)
        vals = [zda, reg, r['receiptIdentifier'], r['dateToUse']] + [
                sim.money(x) for x in c] + [sim.b64(enc), f[10],
                        sim.chain_value(last if last is not None else reg)]
        f = [o.get(a, b) for a, b in zip(FIELDS, vals)]
        pl = sim.payload(alg, f[0], f[1], f[2], f[3], f[4:9], f[9], f[10],
                f[11])
        if 'signature' in o:
            expect_eq(j.split('.')[2], o['signature'], 'signature')
            expect_eq(sim.jws_parts(j)[1], pl, 'payload')
            last = None
        else:
            if spec.get('certChainLength', [0] * n)[dev]:
                # signed with a key of the generator
                expect_eq(sim.jws_parts(j)[1], pl, 'payload')
                if r['signatureDeviceDamaged']:
                    check_jws(j, pl, None)
            else:
                check_jws(j, pl, None if r['signatureDeviceDamaged'] else
                        keys[dev])
            last = j
        if 'certSerial' not in o:
            if closed:
                want = '%s-K%d' % (spec['companyID'], dev)
            elif spec.get('certChainLength', [0] * n)[dev]:
                want = f[10]
            else:
                a = abs(case['serials'][dev])
                want = '%d' % a if spec.get('decimalSerial') else '%x' % a
            expect_eq(f[10], want, 'serial')
        if start is None:
            start = j
        if last is None:
            # the harness does not know what the next receipt chains to
            override = True
            break
    if not override:
        expect_eq(deps[-1].get('Umsatz-gesamt'), note, 'annotation')
        f27 = index_f27(ins)
        for x, dep in enumerate(deps[1:], 1):
            if regof[x] in regof[:x]:
                if x in f27 and dep.get('Vorheriges-DEP') == f27[x]:
                    # known finding F27, this exact wrong value only
                    expect_eq(dep.get('Fortgesetztes-DEP'), True, 'flag')
                    ctx.label('F27')
                    continue
                expect_eq((dep.get('Vorheriges-DEP'), dep.get(
                    'Fortgesetztes-DEP')), (max(y for y in range(x) if regof[y]
                        == regof[x]), True), 'continuation in file %d' % x)
            else:
                expect_eq((dep.get('Vorheriges-DEP'), dep.get(
                    'Fortgesetztes-DEP')), (regof.index(regof[x] - 1), None),
                    'previous register')
    if len(ins) < 2:
        ctx.trivial()
    # --- the verdict on the files, one after the other
    st, rst = None, None
    result, rresult = 'ok', 'ok'
    for x, dep in enumerate(deps):
        d1 = {'Belege-Gruppe': dep['Belege-Gruppe']}
        new = not x or not dep.get('Fortgesetztes-DEP')
        idx = None if new else regof[x] if not override else 0
        if override and x:
            return
        ref = ref_verify(d1, ksj, aes, rst, idx)
        if ref[0] == '?':
            return
        got = run_path(d1, ksj, aes, DEP, st, idx)
        expect_eq(got[0], ref[0], 'verdict on file %d (reference: %r, librksv: '
                '%r)' % (x, ref[1:], got[1:]))
        result = ref[0]
        if result != 'ok':
            break
        st, rst = load_state(got[1]), ref[1]
        if dep.get('Umsatz-gesamt') and not any('override' in i for i in ins):
            expect_eq(got[1]['cashRegisters'][regof[x]]['lastTurnoverCounter'],
                    round(dep['Umsatz-gesamt'] * 100), 'annotated counter')
    bad = [k for k in ('omitRootCert', 'omitSignCert', 'certChainFailure',
        'certChainSerialCollision') if k in spec]
    o = [i for i in ins if i.get('override')]
    ids = [i['receiptIdentifier'] for i in ins]
    ts = [i['dateToUse'] for i in ins]
    if not bad and not o and len(set(ids)) == len(ids) and ts == sorted(ts):
        expect_eq(result, 'ok', 'verdict on conforming instructions')
        ctx.label('conforming', '%d files' % len(deps))
    else:
        ctx.label(*(bad or (sorted(o[0]['override']) if o else ['IDs or times'])),
                result)
        if bad and any(spec[bad[0]][i['usedSignatureDevice']] for i in ins) \
                and len(ins) > 0:
            if bad[0] == 'certChainFailure' or bad[0] == \
                    'certChainSerialCollision':
                expect_eq(result, 'bad', 'verdict with %s' % bad[0])


# -------------------------------------------------------------------- demo

def gen_demo(d):
    return {'closed': d.bool(), 'n': d.choice([1, 1, 2, 3, d.int(4, 30)]),
            'seed': d.int(0, 10 ** 9), 'key': d.int(1, 5), 'aes': d.int(0, 3),
            'ser': d.choice(SERIALS), 'kid': d.choice(KIDS), 'path': path(d,
                10)}


def run_demo(case, ctx):
    tmp = tempfile.mkdtemp(prefix='rkv23')
    try:
        def put(name, text):
            p = os.path.join(tmp, name)
            with open(p, 'w') as f:
                f.write(text)
            return p
        k = case['key']
        der = sim.cert_der(k, 'x', case['ser'], k, 'x')
        aes = sim.aes_key(case['aes'])
        argv = ['demo.py', put('priv', sim.priv_pem(k))]
        ks = sim.KeyStoreJson()
        if case['closed']:
            argv += [put('pub', sim.pub_pem(k)), case['kid']]
            ks.pubkey(case['kid'], k)
        else:
            argv += [put('crt', sim.der_pem(der))]
            ks.cert(der, case['ser'])
        argv += [put('aes', sim.b64(aes)), str(case['n'])]
        random.seed(case['seed'])
        out = io.StringIO()
        old = sys.argv
        sys.argv = argv
        try:
            with contextlib.redirect_stdout(out):
                runpy.run_path(os.path.join(env.REPO, 'demo.py'),
                        run_name='__main__')
        finally:
            sys.argv = old
    finally:
        shutil.rmtree(tmp)
    dep = json.loads(out.getvalue())
    rs = [r for g in dep['Belege-Gruppe'] for r in g['Belege-kompakt']]
    expect_eq(len(rs), case['n'], 'number of receipts')
    ctx.label('closed' if case['closed'] else 'open')
    if case['n'] < 2:
        ctx.trivial()
    ref = ref_verify(dep, ks.json(), aes)
    expect_eq(ref[0], 'ok', 'demonstration DEP does not conform: %r' %
            (ref[1:],))
    got = run_path(dep, ks.json(), aes, case['path'])
    expect_eq(got[0], 'ok', 'demonstration DEP refused: %r' % (got[1:],))


# ----------------------------------------------------------- remote device

def gen_remote(d):
    return {'key': d.int(1, 5), 'reg': reg_id(d), 'user': d.choice(['u123456789',
        'x']), 'pw': d.choice(['123', 'pä"ß']), 'zda': d.choice(['AT1', 'AT3']),
        'alg': d.choice(['ES256'] * 9 + ['ES384', 'RS256', 'none', '',
                'es256', None]),
            'ser': '%x' % d.choice(SERIALS[:6]), 'ca': d.choice([True, False,
            '/ca.pem']),
        'recs': d.list(1, 8, lambda i: {'c': [d.int(-10 ** 6, 10 ** 6), 0, 0,
            0, 0], 'fail': d.choice([None, None, None, 'conn', 'http',
                'timeout', 'http4', 'ssl'])})}


def run_remote(case, ctx):
    """ a signature service: its outages become failure notices """
    import requests
    log = []
    mode = [None]

    def answer(code, obj):
        r = requests.Response()
        r.status_code = code
        r._content = json.dumps(obj).encode()
        return r

    def get(url, **kw):
        expect_eq(kw.get('verify'), case['ca'], 'certificate check')
        if url.endswith('/%s/Certificate' % case['user']):
            return answer(200, {'ZertifikatsseriennummerHex': case['ser'],
                'alg': case['alg'], 'Signaturzertifikat': ''})
        if url.endswith('/%s/ZDA' % case['user']):
            return answer(200, {'zdaid': case['zda']})
        return answer(404, {})

    def post(url, json=None, **kw):
        expect(url.endswith('/%s/Sign/JWS' % case['user']), 'wrong URL %s', url)
        expect_eq(kw.get('verify'), case['ca'], 'certificate check')
        expect_eq(json.get('password'), case['pw'], 'password')
        f = mode[0]
        if f == 'conn':
            raise requests.exceptions.ConnectionError('x')
        if f == 'timeout':
            raise requests.exceptions.Timeout('x')
        if f == 'ssl':
            raise requests.exceptions.SSLError('x')
        if f:
            return answer(500 if f == 'http' else 403, {'result': 'x'})
        j = sim.jws(json['jws_payload'], case['key'])
        log.append(j)
        return answer(200, {'result': j})

    old = requests.get, requests.post
    requests.get, requests.post = get, post
    try:
        s = sigsys.SignatureSystemATrustMobile(case['user'], case['pw'],
                case['ca'])
        expect_eq((s.serial, s.zda), (case['ser'], case['zda']), 'device')
        aes = sim.aes_key(1)
        if case['alg'] != 'ES256':
            # not even a failure notice: this device can never sign it
            ctx.label('algorithm')
            try:
                s.sign('_R1-AT1_x', algorithms.ALGORITHMS['R1'])
            except Exception:
                pass
            else:
                expect(False, 'signed by a device with algorithm %r',
                        case['alg'])
            expect_eq(log, [], 'payloads given to the device')
            return
        reg = cashreg.CashRegister(case['reg'], None, 0, aes)
        last, counter = None, 0
        for i, r in enumerate(case['recs']):
            mode[0] = r['fail']
            ctx.label(str(r['fail']))
            rec = reg.receipt('R1', 'R%d' % i, datetime.datetime(2017, 4, 1),
                    *[c / 100 for c in r['c']], s)
            counter += sum(r['c'])
            pl = sim.payload('R1', case['zda'], case['reg'], 'R%d' % i,
                    '2017-04-01T00:00:00', [sim.money(c) for c in r['c']],
                    sim.b64(sim.enc_counter(aes, case['reg'], 'R%d' % i,
                        counter, 8)), case['ser'], sim.chain_value(last if last
                            is not None else case['reg']))
            last = rec.toJWSString('R1')
            check_jws(last, pl, None if r['fail'] else case['key'])
            if not r['fail']:
                expect_eq(last, log[-1], 'signed receipt')
    finally:
        requests.get, requests.post = old
    if len(case['recs']) < 2:
        ctx.trivial()


def known():
    ins = []
    for i, (new, reg) in enumerate([(None, None), ('NEW_CLUSTER_DEP', None),
            ('NEW_CONTINUED_DEP', 0), ('NEW_CLUSTER_DEP', None),
            ('NEW_CONTINUED_DEP', 2), ('NEW_CONTINUED_DEP', 1)]):
        r = {'receiptIdentifier': str(i), 'dateToUse': '2020-01-01T00:00:00',
                'usedSignatureDevice': 0, 'signatureDeviceDamaged': False,
                'typeOfReceipt': 'START_BELEG', 'simplifiedReceipt':
                dict.fromkeys(['taxSetNormal', 'taxSetErmaessigt1',
                    'taxSetErmaessigt2', 'taxSetNull', 'taxSetBesonders'],
                    0.0)}
        if new:
            r['beginNewDEP'] = new
        if reg is not None:
            r['continueRegister'] = reg
        ins.append(r)
    spec = {'simulationRunLabel': 'x', 'cashBoxId': 'r', 'base64AesKey':
            sim.b64(b'k' * 32), 'companyID': 'U:ATU12345678',
            'numberOfSignatureDevices': 1, 'cashBoxInstructionList': ins}
    deps, _ = run_test.runTest(spec, [(sim.pub_pem(1), sim.priv_pem(1))], True)
    if deps[5].get('Vorheriges-DEP') == index_f27(ins)[5] != 1:
        return ['KNOWN-FINDING: property=C23 the test case generator names the '
                'wrong file as the previous one of a register if, after an '
                'earlier register was continued, another one was started']
    return []


SUBS = [Sub('register', gen_register, run_register, 8000), Sub('instructions',
    gen_test, run_gen, 4000), Sub('demo', gen_demo, run_demo, 200),
    Sub('remote', gen_remote, run_remote, 1600)]
