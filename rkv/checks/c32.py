import json
import os
import random
import re

from .. import cli, sim
from ..paths import PicklePool, run_path, DEP, load_state, utils, verify
from ..ref import ref_verify, EXC
from ..runner import Sub, expect, expect_eq
from . import c23

from librksv import depparser, run_test
from librksv.test import test_verify, verification_proxy

ID = 'C32'
TITLE = 'The test case tools report exactly what the specification says'
RULE = ('a case counts if the specification has at least two receipts; '
        'distinct by specification and expectation')
ASSUMPTIONS = ['the DEPs a specification describes are covered by C23; the '
        'expected outcome is that of the reference verifier for them',
        'an annotated turnover of zero is no annotation']

# base classes of the documented errors
PARENTS = {
    'MalformedReceiptException': ['ReceiptParseException', 'ReceiptException'],
    'UnknownAlgorithmException': ['ReceiptParseException', 'ReceiptException'],
    'CertSerialInvalidException': ['ReceiptException'],
    'InvalidCertificateProviderException': ['ReceiptException'],
    'InvalidSignatureException': ['ReceiptException'],
    'NoPublicKeyException': ['ReceiptException'],
    'CertSerialMismatchException': ['ReceiptException'],
    'ChainingException': ['DEPReceiptException', 'DEPException'],
    'InvalidTurnoverCounterException': ['DEPReceiptException', 'DEPException'],
    'ChangingRegisterIdException': ['DEPReceiptException', 'DEPException'],
    'DecreasingDateException': ['DEPReceiptException', 'DEPException'],
    'UntrustedCertificateException': ['DEPException'],
    'CertificateChainBrokenException': ['DEPException'],
    'CertificateSerialCollisionException': ['DEPException'],
    'DuplicateReceiptIdException': ['DEPException'],
}
OTHER = ['ChainingException', 'DEPParseException', 'DecreasingDateException',
    'InvalidSignatureException', 'UntrustedCertificateException',
    'NoSuchException']


def gen_spec(d):
    c = c23.gen_test(d)
    c['samekey'] = True
    sp = c['spec']
    if d.bool(1, 3):
        # a second use of an ID, time going backwards
        ins = sp['cashBoxInstructionList']
        i = d.int(0, len(ins) - 1)
        if d.bool():
            ins[i]['receiptIdentifier'] = ins[0]['receiptIdentifier']
        else:
            ins[i]['dateToUse'] = '1999-01-01T00:00:00'
    sp['simulationRunLabel'] = d.choice(['x', 'Test 1', 'ü', 'a' * 45])
    c['serials'] = c['serials'][:1] * sp['numberOfSignatureDevices']
    c['tc'] = None
    return c


def material(case):
    closed = case['closed']
    der = sim.cert_der(1, 'dev 0', case['serials'][0], 1, 'dev 0')
    return (sim.pub_pem(1) if closed else sim.der_pem(der)), sim.priv_pem(1)


def truth(case, paths=(DEP,)):
    """
    The outcome for the DEPs the specification describes, by the reference;
    None if the verdict is open or depends on the way of reading
    :return: 'ok' or (class, receipt), states of the registers
    """
    spec = case['spec']
    random.seed(case['rnd'])
    n = spec['numberOfSignatureDevices']
    deps, ks = run_test.runTest(json.loads(json.dumps(spec)),
            [material(case)] * n, case['closed'])
    deps, ks = json.loads(json.dumps(deps)), json.loads(json.dumps(ks))
    aes = sim.base64.b64decode(spec['base64AesKey'])
    state, regs, note = None, [], []
    for dep in deps:
        if dep.get('Fortgesetztes-DEP'):
            idx = regs[dep['Vorheriges-DEP']]
        else:
            idx = max(regs) + 1 if regs else 0
        regs.append(idx)
        if len(dep['Belege-Gruppe']) > 1 and any(g['Signaturzertifikat'] == ''
                for g in dep['Belege-Gruppe']):
            return None         # F20
        r = ref_verify({'Belege-Gruppe': dep['Belege-Gruppe']}, ks, aes, state,
                idx)
        if r[0] == '?':
            return None
        if r[0] == 'bad':
            if r[1] not in EXC:
                return None
            return (EXC[r[1]], r[2]), deps
        state = r[1]
        if dep.get('Umsatz-gesamt'):
            if round(dep['Umsatz-gesamt'] * 100) != state.regs[idx]['lastTurnoverCounter']:
                return 'turnover', deps
    return 'ok', deps


def gen_case(d):
    c = gen_spec(d)
    c['exp'] = d.weighted(5, 'true', 1, 'parent', 2, 'other', 2, 'none', 2,
            'receipt', 2, 'wrong-receipt', 1, 'msg', 1, 'wrong-msg', 1,
            'regex', 1, 'wrong-regex', 1, 'turnover')
    c['other'] = d.choice(OTHER)
    c['at'] = d.int(0, 30)
    c['batch'] = d.int(1, 3)
    return c


class SeqProxy(verification_proxy.RKSVVerificationProxyI):
    """ a verifier that reads the file as the proxy of librksv does, but checks
    it sequentially - and that may have a fault """
    def __init__(self, fault=None):
        self.fault = fault
        self.calls = 0

    def verify(self, fd, keyStore, aesKey, inState, registerIdx, chunksize):
        self.calls += 1
        expect(chunksize >= 1, 'chunk size %r', chunksize)
        p = depparser.IncrementalDEPParser.fromFd(fd, True)
        st = verify.verifyParsedDEP(p, keyStore, aesKey, inState, registerIdx,
                None, 1, chunksize)
        if self.fault is not None:
            st = self.fault(st, registerIdx)
        return st


def run_case(case, ctx):
    spec = case['spec']
    t = truth(case)
    if t is None:
        ctx.trivial()
        ctx.label('open')
        return
    t, deps = t
    x = case['exp']
    ins = spec['cashBoxInstructionList']
    s = json.loads(json.dumps(spec))
    want = 'OK'
    if t == 'turnover':
        want = 'FAIL'
    elif t == 'ok':
        if x in ('other', 'wrong-receipt'):
            s['expectedException'] = case['other']
            want = 'FAIL'
        elif x == 'turnover':
            # annotate the last receipt of a file with another sum
            i = s['cashBoxInstructionList'][-1]
            v = i.get('annotateTurnoverCounter', 0) or 12345.67
            r = ref_last(deps, spec, case)
            if r is None or round(v * 100) == r:
                v += 1
            if round(v * 100) != r:
                i['annotateTurnoverCounter'] = v
                want = 'FAIL'
        elif x in ('receipt', 'msg', 'regex'):
            # without an exception these do not matter
            s['exceptionReceipt'] = 'nothing'
    elif several(spec):
        # reading group by group may come to another error first
        ctx.trivial()
        return
    else:
        cls, rec = t
        if x in ('true', 'turnover'):
            s['expectedException'] = cls
        elif x == 'parent':
            s['expectedException'] = case['other'] if cls not in PARENTS else \
                PARENTS[cls][case['at'] % len(PARENTS[cls])]
            if cls not in PARENTS and cls != case['other']:
                want = 'FAIL'
        elif x == 'other':
            s['expectedException'] = case['other']
            if case['other'] != cls and case['other'] not in PARENTS.get(cls,
                    []):
                if case['other'] == 'ChainingException' and cls.startswith(
                        'InvalidChaining'):
                    ctx.trivial()
                    return
                want = 'FAIL'
        elif x == 'none':
            want = 'FAIL'
        elif x in ('receipt', 'wrong-receipt'):
            s['expectedException'] = cls
            if rec is None or rec.startswith('eyJ'):
                # known finding: AttributeError; or the receipt itself with a
                # signature that is different each time
                ctx.trivial()
                return
            if x == 'receipt':
                s['exceptionReceipt'] = rec
            else:
                s['exceptionReceipt'] = 'no such receipt'
                want = 'FAIL'
        else:
            s['expectedException'] = cls
            # the message is checked through what it must contain
            k = 'exceptionMsg' + ('' if 'msg' in x else 'Regex')
            if x == 'regex':
                s[k] = '.*' + (re.escape(rec) if rec is not None and not
                        rec.startswith('eyJ') else '')
            elif x == 'wrong-regex':
                s[k] = 'no such text'
                want = 'FAIL'
            elif x == 'wrong-msg':
                s[k] = 'no such text'
                want = 'FAIL'
    ctx.label('truth:%s' % (t if isinstance(t, str) else t[0]), x, want)
    if len(ins) < 2:
        ctx.trivial()
    random.seed(case['rnd'])
    pub, priv = material(case)
    p = SeqProxy()
    res, msg = test_verify.testVerify(s, pub, priv, case['closed'], p)
    expect(isinstance(res, test_verify.TestVerifyResult), 'result %r', res)
    expect_eq(res.name, want, 'result of the test (%s), outcome %r, '
            'expectation %r' % (msg, t, {k: s[k] for k in s if k.startswith(
                'exc') or k.startswith('exp')}))
    expect_eq(msg is None, want == 'OK', 'message with %s' % res)
    expect(p.calls > 0, 'the verifier was not asked')


def several(sp):
    """ the number of kinds of defects """
    ins = sp['cashBoxInstructionList']
    ids = [i['receiptIdentifier'] for i in ins]
    ts = [i['dateToUse'] for i in ins]
    return (any('override' in i for i in ins)) + (len(ids) != len(set(ids))) + (
            ts != sorted(ts)) + any(k in sp for k in ('certChainFailure',
            'certChainSerialCollision', 'omitRootCert', 'omitSignCert')) > 1


def ref_last(deps, spec, case):
    """ counter of the register of the last receipt """
    n = 0
    regs = [0]
    cur = 0
    for i, r in enumerate(spec['cashBoxInstructionList']):
        new = r.get('beginNewDEP')
        if i and new == 'NEW_CLUSTER_DEP':
            cur = len(regs)
            regs.append(0)
        elif i and new == 'NEW_CONTINUED_DEP':
            cur = r.get('continueRegister', cur)
        if r.get('typeOfReceipt') != 'TRAINING_BELEG':
            regs[cur] += sum(round(v * 100) for v in
                    r['simplifiedReceipt'].values())
    if any('override' in r for r in spec['cashBoxInstructionList']):
        return None
    if c23.index_f27(spec['cashBoxInstructionList']):
        return None
    return regs[cur]


# ------------------------------------------------------------------ a fault

FAULTS = ['counter', 'last', 'restore', 'start', 'ids', 'lost-id', 'raise',
    'accept']


def gen_fault(d):
    c = gen_spec(d)
    c['fault'] = d.choice(FAULTS)
    return c


def run_fault(case, ctx):
    """ a verifier that gives a wrong answer does not pass the test """
    t = truth(case)
    if t is None:
        ctx.trivial()
        return
    t, deps = t
    f = case['fault']

    def fault(st, idx):
        r = st.cashRegisters[idx]
        if f == 'counter':
            r.lastTurnoverCounter += 1
        elif f == 'last':
            r.lastReceiptJWS = r.startReceiptJWS if r.startReceiptJWS != \
                    r.lastReceiptJWS else None
        elif f == 'restore':
            r.needRestoreReceipt = not r.needRestoreReceipt
        elif f == 'start':
            r.startReceiptJWS = None
        elif f == 'ids':
            st.usedReceiptIds.add('one more')
        elif f == 'lost-id':
            j = st.usedReceiptIds.writeToJson()
            j['backendData'] = sorted(j['backendData'])[1:]
            st.usedReceiptIds = st.usedReceiptIds.readFromJson(j, 'x')
        elif f == 'raise':
            raise depparser.MalformedDEPException('x')
        return st

    class Accepts(SeqProxy):
        def verify(self, fd, ks, key, st, idx, cs):
            try:
                return SeqProxy.verify(self, fd, ks, key, st, idx, cs)
            except utils.RKSVException:
                return st
    spec = json.loads(json.dumps(case['spec']))
    if t not in ('ok', 'turnover'):
        # a defect that is let pass
        if f != 'accept' or t[0] in ('UnknownAlgorithmException',
                'MalformedReceiptException',
                'InvalidCertificateProviderException'):
            # the tool itself notices those that can not be read
            ctx.trivial()
            return
        spec['expectedException'] = t[0]
        p = Accepts()
    else:
        if f == 'accept' or t == 'turnover':
            ctx.trivial()
            return
        p = SeqProxy(fault)
    ctx.label(f)
    random.seed(case['rnd'])
    pub, priv = material(case)
    res, msg = test_verify.testVerify(spec, pub, priv, case['closed'], p)
    expect(res.name != 'OK', 'a verifier with a fault (%s) passed', f)
    expect(msg is not None, 'no message')


# ------------------------------------------------------------- the programs

BAD = ['base64AesKey', 'numberOfSignatureDevices', 'cashBoxInstructionList',
    'cashBoxId', 'companyID']


def gen_prog(d):
    def one(i):
        c = gen_spec(d)
        c['closed'] = d.bool()
        sp = c['spec']
        for k in ('certChainLength', 'certChainFailure',
                'certChainSerialCollision', 'omitRootCert', 'omitSignCert'):
            sp.pop(k, None)
        c['mode'] = d.weighted(5, 'right', 2, 'wrong', 1, 'error')
        c['bad'] = d.choice(BAD)
        c['flag'] = d.choice([None, True, False])
        return c
    return {'specs': d.list(1, 3, one), 'sizes': d.choice([[8], [5], [16, 5],
        [6]]), 'prog': d.choice(['multi', 'multi', 'single', 'run', 'run']),
        'size': d.choice([None, None, 5, 7, 16]), 'args': d.choice([None] * 8 +
            ['size', 'keys', 'mode', 'few']), 'bad': d.choice([4, 17, 0, -1])}


class Pool(PicklePool):
    def __init__(self, n=None, *a):
        PicklePool.__init__(self, 2)

    def terminate(self):
        pass

    def join(self):
        pass

    def close(self):
        pass


def prog(script, args, cwd, seed):
    import gettext
    import multiprocessing
    old = multiprocessing.Pool, gettext.install
    multiprocessing.Pool = Pool
    # known finding: these two scripts do not start under Python 3.11 and later
    gettext.install = lambda domain, localedir=None, *a, **k: old[1](domain,
            localedir)
    st = random.getstate()
    try:
        return cli.run(script, args, environ={'RKSV_TEST_SEED': str(seed)},
                cwd=cwd)
    finally:
        multiprocessing.Pool, gettext.install = old
        random.setstate(st)


LINE = re.compile(r'^(.*)\( *(\S+), +(\d+), +(.*)\)\.\.\.\.*(OK|FAIL|ERROR)$')


def outcome(c, closed, size, label):
    """ sets the expectation and says what the tool has to report """
    c = dict(c, closed=closed, spec=dict(c['spec']))
    sp = c['spec']
    if size:
        sp['turnoverCounterSize'] = size
    sp.pop('companyID', None)
    sp['companyID'] = 'U:ATU12345678'
    return truth(c)


def run_prog(case, ctx):
    specs = case['specs']
    which = case['prog']
    c0 = specs[0]
    ctx.label(which)
    with cli.scratch() as tmp:
        crt = cli.write(tmp, 'crt', sim.der_pem(sim.cert_der(1, 'dev 0', 77, 1,
            'dev 0')))
        pub = cli.write(tmp, 'pub', sim.pub_pem(1))
        priv = cli.write(tmp, 'priv', sim.priv_pem(1))
        if which == 'run':
            return run_run_test(case, ctx, tmp, crt, pub, priv)
        files, want = [], []
        for i, c in enumerate(specs[:1] if which == 'single' else specs):
            sp = json.loads(json.dumps(c['spec']))
            sp['companyID'] = 'U:ATU12345678'
            sp['simulationRunLabel'] = 'spec %d' % i
            runs = []
            if which == 'single':
                sizes, kinds = [case['size'] or sp.get('turnoverCounterSize',
                    8)], [c['closed']]
            else:
                sizes = case['sizes']
                kinds = [False, True] if c['flag'] is None else [c['flag']]
                if c['flag'] is not None:
                    sp['closedSystem'] = c['flag']
            if any(x.get('beginNewDEP') == 'NEW_CLUSTER_DEP' for x in
                    sp['cashBoxInstructionList']) and kinds != [True]:
                # clusters exist in closed systems only
                kinds = [True]
                if which == 'single':
                    c['closed'] = True
                else:
                    sp['closedSystem'] = True
            ts = []
            for s in sizes:
                for k in kinds:
                    t = truth(dict(c, closed=k, serials=[77] * 9, spec=dict(sp,
                        turnoverCounterSize=s)))
                    if t is None:
                        ctx.trivial()
                        return
                    ts.append((s, k, t[0]))
            exp = ts[0][2]
            if exp not in ('ok', 'turnover'):
                sp['expectedException'] = exp[0]
            if c['mode'] == 'wrong':
                sp['expectedException'] = 'DEPParseException' if exp != \
                    'DEPParseException' else 'ChainingException'
            for s, k, t in ts:
                e = sp.get('expectedException')
                if c['mode'] == 'error':
                    w = 'ERROR'
                elif t == 'turnover':
                    w = 'FAIL'
                elif t == 'ok':
                    w = 'FAIL' if e else 'OK'
                elif multiple(sp):
                    ctx.trivial()
                    return
                else:
                    w = 'OK' if e == t[0] or e in PARENTS.get(t[0], []) else \
                        'FAIL'
                want.append((i, s, k, w))
            if c['mode'] == 'error':
                if which == 'single' and c['bad'] == 'simulationRunLabel':
                    pass
                if not (c['bad'] == 'companyID' and False in kinds):
                    sp.pop(c['bad'])
                else:
                    sp['base64AesKey'] = '!'
            files.append(cli.write(tmp, 'spec%d.json' % i, json.dumps(sp)))
        if which == 'single':
            k = 'closed' if c0['closed'] else 'open'
            args = [k, files[0], priv, pub if c0['closed'] else crt]
            if case['size']:
                args.append(str(case['size']))
        else:
            # all specifications with one size, then with the next
            want = [w for s in case['sizes'] for w in want if w[1] == s]
            args = ['multi', priv, crt, pub, ','.join(map(str, case['sizes'])),
                'grp'] + files
        bad = case['args']
        if bad == 'size':
            if which == 'single':
                args = args[:4] + [str(case['bad'])]
            else:
                args[4] += ',%d' % case['bad']
        elif bad == 'mode':
            args[0] = 'Multi'
        elif bad == 'few':
            args = args[:3]
        elif bad == 'keys':
            bad = None
        r = prog('test_verify.py', args, tmp, 5)
        expect(r.exc is None, 'test_verify.py %r: %r', args, r)
        got = [m.groups() for m in map(LINE.match, r.text.split('\n')) if m]
        if bad:
            ctx.label('usage')
            expect_eq(r.rc, 3, 'exit status for wrong arguments %r' % (args,))
            expect_eq(got, [], 'tests run with wrong arguments')
            return
        expect_eq([(a.rstrip(), b, c, d, e) for a, b, c, d, e in got], [(
            'spec %d' % i, 'closed' if k else 'open', str(s), 'grp' if which
            == 'multi' else 'no Group', w) for i, s, k, w in want],
            'reported results: %s' % r)
        ws = [w[3] for w in want]
        ctx.label(*sorted(set(ws)))
        expect_eq(r.rc, 2 if 'ERROR' in ws else 1 if 'FAIL' in ws else 0,
                'exit status')
        if which == 'multi':
            expect('%d tests run, %d failed, %d errors' % (len(ws), ws.count(
                'FAIL'), ws.count('ERROR')) in r.text, 'summary: %s', r.text)
        expect(r.text.count('seed "5"') == 2, 'seed not given: %s', r.text)


def multiple(sp):
    """ several defects: which one a parallel verification names is open """
    n = sum('override' in i for i in sp['cashBoxInstructionList'])
    ids = [i['receiptIdentifier'] for i in sp['cashBoxInstructionList']]
    ts = [i['dateToUse'] for i in sp['cashBoxInstructionList']]
    n += len(ids) - len(set(ids))
    n += sum(a > b for a, b in zip(ts, ts[1:]))
    return n > 1 or any('signature' in i.get('override', {}) or
            'turnoverCounter' in i.get('override', {}) for i in
            sp['cashBoxInstructionList'])


def run_run_test(case, ctx, tmp, crt, pub, priv):
    """ run_test.py writes what the generator made """
    c = case['specs'][0]
    sp = c['spec']
    label = sp['simulationRunLabel']
    n = sp['numberOfSignatureDevices']
    closed = c['closed']
    if not closed:
        for i in sp['cashBoxInstructionList']:
            if i.get('beginNewDEP') == 'NEW_CLUSTER_DEP':
                closed = c['closed'] = True
    c['serials'] = [77] * n
    c['tc'] = case['size']
    c['samekey'] = True
    f = cli.write(tmp, 'spec.json', json.dumps(sp))
    args = ['closed' if closed else 'open', f] + [priv, pub if closed else
            crt] * n
    if case['size']:
        args.append(str(case['size']))
    bad = case['args']
    if bad == 'size':
        args = args[:2 + 2 * n] + [str(case['bad'])]
    elif bad == 'keys':
        args = args[:2 + 2 * n] + [priv, pub]
    elif bad == 'mode':
        args[0] = 'Closed'
    elif bad == 'few':
        args = args[:3]
    before = cli.tree(tmp)
    exists = case['specs'][0]['rnd'] % 2
    if exists:
        os.mkdir(os.path.join(tmp, label))
    r = prog('run_test.py', args, tmp, 5)
    expect(r.exc is None, 'run_test.py %r: %r', args, r)
    expect_eq(r.rc, 0, 'exit status')
    after = cli.tree(tmp)
    new = {k: v for k, v in after.items() if k not in before}
    expect_eq({k: after.get(k) for k in before}, before, 'given files')
    if bad:
        ctx.label('usage')
        expect_eq(new, {}, 'files written despite wrong arguments %r' % (args,))
        expect(r.text.strip() != '', 'no message')
        return
    p = label + os.sep
    expect(p + 'cryptographicMaterialContainer.json' in new, 'no container')
    ks = json.loads(new.pop(p + 'cryptographicMaterialContainer.json').decode())
    if len(new) == 1:
        names = [p + 'dep-export.json']
    else:
        names = [p + 'dep-export%d.json' % i for i in range(len(new))]
    expect_eq(sorted(new), sorted(names), 'files')
    deps = [json.loads(new[x].decode()) for x in names]
    ctx.label('%d files' % len(deps))
    c23.check_output(c, deps, ks, ctx)


def known():
    res = []
    spec = {'simulationRunLabel': 'x', 'cashBoxId': 'r', 'base64AesKey':
            sim.base64.b64encode(b'k' * 32).decode(), 'companyID':
            'U:ATU12345678', 'numberOfSignatureDevices': 1, 'certChainLength':
            [1], 'multipleGroups': True, 'certChainFailure': [1], 'cashBoxInstructionList': [{
            'receiptIdentifier': '1', 'dateToUse': '2020-01-01T00:00:00',
            'usedSignatureDevice': 0, 'signatureDeviceDamaged': False,
            'typeOfReceipt': 'START_BELEG', 'simplifiedReceipt': dict.fromkeys([
            'taxSetNormal', 'taxSetErmaessigt1', 'taxSetErmaessigt2',
            'taxSetNull', 'taxSetBesonders'], 0.0)}], 'expectedException':
            'CertificateChainBrokenException', 'exceptionReceipt': 'x'}
    try:
        test_verify.testVerify(spec, sim.der_pem(sim.cert_der(1, 'dev 0', 77, 1,
            'dev 0')), sim.priv_pem(1), False, SeqProxy())
    except AttributeError:
        res.append('KNOWN-FINDING: property=C32 testVerify() fails with '
                'AttributeError if exceptionReceipt is given and an error '
                'without a receipt occurs')
    for s in ('run_test.py', 'test_verify.py'):
        if type(cli.run(s, []).exc) is TypeError:
            res.append('KNOWN-FINDING: property=C32 %s does not start under '
                    'Python 3.11 and later (gettext.install)' % s)
    return res


SUBS = [Sub('expect', gen_case, run_case, 3000), Sub('fault', gen_fault,
    run_fault, 1500), Sub('programs', gen_prog, run_prog, 1500)]
