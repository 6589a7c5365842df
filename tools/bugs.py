"""
Definitions of the planted bugs: edits to /repo, the demonstration's static
data (made with the simulator) and its program.  Built by plant.py.
"""
import copy
import json

from rkv import sim

BUGS = []


def bug(**kw):
    BUGS.append(kw)


T0 = 63000000000


def R(i, c=0, k='S', d=0, b=False, **o):
    r = {'id': 'R%d' % i if isinstance(i, int) else i,
         't': 0, 'c': [c, 0, 0, 0, 0], 'k': k, 'd': d, 'b': b}
    if o:
        r['o'] = o
    return r


def W(recs, closed=False, devs=None, reg='KASSE-1', size=8, start=None, aes=1):
    for i, r in enumerate(recs):
        r['t'] = 820454400 + 60 * i if r['t'] == 0 else r['t']
    if devs is None:
        devs = [{'k': 1, 'ser': 4711, 'zda': 'AT1', 'kid': 'U:ATU1-K1',
                 'chain': 0}]
    return sim.World({'closed': closed, 'reg': reg, 'aes': aes, 'size': size,
        'devs': devs, 'recs': recs}, start)


# ---------------------------------------------------------------- C05 / C09

def d_restore():
    w = W([R(1), R(2, 100), R(3, 200, b=True), R(4, 0), R(5, 300)])
    bad = W([R(1), R(2, 100), R(3, 200, b=True), R(4, 50), R(5, 300)])
    x = W([R(1), R(2, 100), R(3, 200, b=True), R(4, 50, b=False)])
    return {'ks': w.keystore(), 'good': w.single(), 'bad': bad.single()}


bug(id='par-restore', prop='C09',
    needs='a parallel run in which a work package consists of exactly one '
        'receipt, signed with turnover, directly after an unsigned one in the '
        'package before',
    what='The prepared state of the following package loses the pending '
        'restore receipt, so a DEP rejected sequentially is accepted in '
        'parallel.',
    edits=[('librksv/verification_state.py',
        '            secondToLastReceiptJWS = self.lastReceiptJWS\n',
        '            secondToLastReceiptJWS = None\n')],
    data=d_restore,
    demo='''
assert fails(lambda: run(D['bad'], D['ks']))
run_par(D['good'], D['ks'], 5, 1)
assert fails(lambda: run_par(D['bad'], D['ks'], 5, 1)), 'accepted in parallel'
''')


# --------------------------------------------------------------------- C20

def d_dummytail():
    w = W([R(1), R(2, 1000), R(3, 500, k='D'), R(4, -300, k='R'),
        R(5, 700, k='D')])
    return {'ks': w.keystore(), 'dep': w.single()}




# --------------------------------------------------------------------- C08

def d_dup():
    w = W([R(1), R(2, 100), R('X', 200), R(4, 0), R('X', 300), R(6, 5)])
    return {'ks': w.keystore(), 'dep': w.single()}


bug(id='merge-ids', prop='C08',
    needs='parallel verification where the same receipt ID is used in two '
        'work packages of the same batch',
    what='Merging the used receipt IDs of the packages only compares each '
        'package with what was known before the batch.',
    edits=[('librksv/verification_state.py',
'''            for rId in rIds._usedRecIds:
                self.check(rId)
                self.add(rId)
''',
'''            for rId in rIds._usedRecIds:
                self.check(rId)
        for rIds in usedReceiptIdsList:
            self._usedRecIds |= rIds._usedRecIds
''')],
    data=d_dup,
    demo='''
assert fails(lambda: run(D['dep'], D['ks']))
assert fails(lambda: run_par(D['dep'], D['ks'], 2, 3)), 'duplicate accepted'
''')


# --------------------------------------------------------------------- C12

def d_fakeroot():
    dev = {'k': 1, 'ser': 4711, 'zda': 'AT1', 'chain': 1}
    w = W([R(1), R(2, 100)], devs=[dev])
    good = w.multi()
    ks = w.keystore(trust='root')
    # an attacker's own root with the serial of the trusted one
    evil = dict(dev, k=9)
    e = W([R(1), R(2, 100)], devs=[evil])
    return {'ks': ks, 'good': good, 'bad': e.multi()}


bug(id='fake-root', prop='C12',
    needs='a certificate chain whose last certificate has the serial of a '
        'trusted certificate but another key',
    what='Only the end of a chain without issuers is compared with the trusted '
        'certificate by content; an attacker can bring a root of their own '
        'with the same serial.',
    edits=[('librksv/verify.py',
'''    ksCert = keyStore.getCert(key_store.numSerialToKeyId(prev.serial_number))
    if ksCert:
        if utils.certFingerprint(ksCert) != utils.certFingerprint(prev):
            raise CertificateSerialCollisionException(
                    key_store.numSerialToKeyId(prev.serial_number),
                    utils.certFingerprint(prev),
                    utils.certFingerprint(ksCert))
        return

    raise''',
'''    ksCert = keyStore.getCert(key_store.numSerialToKeyId(prev.serial_number))
    if ksCert:
        if not utils.verifyCert(prev, prev) or (prev is cert and
                utils.certFingerprint(ksCert) != utils.certFingerprint(prev)):
            raise CertificateSerialCollisionException(
                    key_store.numSerialToKeyId(prev.serial_number),
                    utils.certFingerprint(prev),
                    utils.certFingerprint(ksCert))
        return

    raise''')],
    data=d_fakeroot,
    demo='''
run(D['good'], D['ks'])
assert fails(lambda: run(D['bad'], D['ks'])), 'foreign root accepted'
''')


def d_cahash():
    w = W([R(1), R(2, 100)], devs=[{'k': 1, 'ser': 17, 'zda': 'AT1',
        'fmt': 'hex', 'chain': 1, 'cas': ['p384'], 'halgs': ['sha256',
            'sha384']}])
    ks = sim.KeyStoreJson(w.aes)
    ks.cert(w.devs[0].ders[1], w.devs[0].serials[1])
    return {'ks': ks.json(), 'dep': w.multi()}


bug(id='ca-hash', prop='C12',
    needs='an issuer with a P-384 key that signed with SHA-256',
    what='The hash of a certificate signature is taken from the size of the '
        'issuer key, so that correctly signed certificates break the chain.',
    edits=[('librksv/utils.py',
'''        alg = ec.ECDSA(halg)
''',
'''        alg = ec.ECDSA(hashes.SHA384() if pubKey.key_size > 256 else halg)
''')],
    data=d_cahash,
    demo='''
run(D['dep'], D['ks'])
''')


# --------------------------------------------------------------------- C13

def d_serial():
    # serial 0x10 (hex) of the device, and a key called 'a' (decimal 10)
    dev = {'k': 1, 'ser': 0x10, 'zda': 'AT1', 'fmt': 'hex', 'chain': 0}
    w = W([R(1), R(2, 100)], devs=[dev])
    ks = w.keystore()
    o = sim.KeyStoreJson()
    o.cert(sim.cert_der(5, 'other', 10, 5, 'other'), 10)
    ks['certificateOrPublicKeyMap'].update(o.map)
    return {'ks': ks, 'dep': w.single()}


bug(id='serial-order', prop='C13',
    needs='a receipt serial of digits only and a key store holding both a key '
        'for its hexadecimal and one for its decimal reading',
    what='The decimal reading of a serial is preferred to the hexadecimal one.',
    edits=[('librksv/key_store.py',
        '''    validKeyIds = list()

    try:
        validKeyIds.append('%x' % int(serial, 16))
    except ValueError as e:
        pass

    try:
        validKeyIds.append('%x' % int(serial, 10))
    except ValueError as e:
        pass

    return validKeyIds
''',
        '''    validKeyIds = list()

    for base in (16, 10):
        try:
            validKeyIds.insert(0, '%x' % int(serial, base))
        except ValueError as e:
            pass

    return validKeyIds
''')],
    data=d_serial,
    demo='''
run(D['dep'], D['ks'])
''')


# --------------------------------------------------------------------- C11

def d_cluster():
    devs = [{'k': 1, 'ser': 4711, 'zda': 'AT0', 'kid': 'U:ATU1-K1'}]
    ws, prev = [], None
    for i in range(3):
        w = W([R('A%d' % i), R('B%d' % i, 100)], closed=True, devs=devs,
            reg='KASSE-%d' % i, start=prev)
        prev = w.jws[0]
        ws.append(w)
    bad = W([R('A2'), R('B2', 100)], closed=True, devs=devs, reg='KASSE-2',
        start=ws[0].jws[0])
    return {'ks': ws[0].keystore(), 'deps': [w.single() for w in ws],
        'bad': bad.single()}




# --------------------------------------------------------------------- C07

def d_date():
    rs = [R(1), R(2, 100), R(3, 5, k='D'), R(4, 7)]
    rs[0]['t'] = 820454400
    rs[1]['t'] = 820454500
    rs[2]['t'] = 820454600
    rs[3]['t'] = 820454550
    w = W(rs)
    return {'ks': w.keystore(), 'dep': w.single()}


bug(id='date-dummy', prop='C07',
    needs='a training receipt directly before a receipt with an earlier '
        'timestamp',
    what='Time may go backwards after a training receipt.',
    edits=[('librksv/verify.py',
        '            if prevObj.dateTime > ro.dateTime:\n',
        '            if prevObj.dateTime > ro.dateTime and not prevObj.isDummy():\n')],
    data=d_date,
    demo='''
assert fails(lambda: run(D['dep'], D['ks'])), 'accepted'
''')


# --------------------------------------------------------------------- C14

def d_big():
    w = W([R(1), R(2, 123456789012345678901), R(3, -1)], size=16)
    return {'jws': w.jws, 'qr': [sim.qr(j) for j in w.jws]}




# --------------------------------------------------------------------- C15

def d_chainlen():
    w = W([R(1), R(2, 100)])
    long = W([R(1), R(2, 100, chain=sim.b64(b'123456789'))])
    short = W([R(1), R(2, 100, chain=sim.b64(b'1234567'))])
    return {'good': [sim.qr(j) for j in w.jws], 'long': sim.qr(long.jws[1]),
        'longj': long.jws[1], 'short': sim.qr(short.jws[1])}


bug(id='qr-chain-length', prop='C15',
    needs='a machine-readable code with a chaining value longer than eight '
        'bytes',
    what='Codes (unlike JWS) with too long chaining values are accepted.',
    edits=[('librksv/receipt.py',
'''        receipt = Receipt(zda, registerId, receiptId, dateTime,
                sumA, sumB, sumC, sumD, sumE, turnoverCounter,
                certSerial, previousChain)
        receipt.sign(header, signature)

        # We assume this to work, because we got through __init__
        cv = utils.b64decode(previousChain.encode('utf-8'))
        if len(cv) != alg.chainBytes():
            raise MalformedReceiptException(receipt.receiptId,
                    _('Chaining value \\"{}\\" invalid.').format(previousChain))

        return receipt, algorithmPrefix

    def toBasicCode(''',
'''        receipt = Receipt(zda, registerId, receiptId, dateTime,
                sumA, sumB, sumC, sumD, sumE, turnoverCounter,
                certSerial, previousChain)
        receipt.sign(header, signature)

        # We assume this to work, because we got through __init__
        cv = utils.b64decode(previousChain.encode('utf-8'))
        if len(cv) < alg.chainBytes():
            raise MalformedReceiptException(receipt.receiptId,
                    _('Chaining value \\"{}\\" invalid.').format(previousChain))

        return receipt, algorithmPrefix

    def toBasicCode(''')],
    data=d_chainlen,
    demo='''
for q in D['good']:
    receipt.Receipt.fromBasicCode(q)
f = receipt.Receipt.fromBasicCode
assert fails(lambda: receipt.Receipt.fromJWSString(D['longj']))
assert fails(lambda: f(D['short']))
assert fails(lambda: f(D['long'])), 'accepted'
''')


# --------------------------------------------------------------------- C16

def d_late():
    w = W([R(1)] + [R(i, i) for i in range(2, 320)])
    g = w.multi()['Belege-Gruppe'][0]
    return {'ks': w.keystore(), 'dep': {'Belege-Gruppe': [
        {'Belege-kompakt': g['Belege-kompakt'],
         'Signaturzertifikat': g['Signaturzertifikat'],
         'Zertifizierungsstellen': g['Zertifizierungsstellen']}]}}


bug(id='file-seek', prop='C16',
    needs='a DEP file of more than one read buffer (64 KiB) with the '
        'certificate after the receipts, read in chunks',
    what='The position in the file is not restored after looking for the '
        'certificates, so the rest of the file is lost.',
    edits=[('librksv/depparser.py',
        '        self.fd.seek(ofs)\n\n'
        '        if chunksize == 0 or len(items) <= chunksize:\n'
        '            self.cache[prefix] = items\n',
        '\n'
        '        if chunksize == 0 or len(items) <= chunksize:\n'
        '            self.cache[prefix] = items\n'
        '            self.fd.seek(ofs)\n')],
    data=d_late,
    demo='''
import tempfile
dep = D['dep']
recs = dep['Belege-Gruppe'][0]['Belege-kompakt']
# two groups and chunks of one receipt: the certificates are not cached
two = {'Belege-Gruppe': [dict(dep['Belege-Gruppe'][0], **{'Belege-kompakt': recs[:160]}),
    dict(dep['Belege-Gruppe'][0], **{'Belege-kompakt': recs[160:]})]}
text = json.dumps(two)
assert len(text) > 70000
with tempfile.TemporaryFile('w+') as f:
    f.write(text)
    f.seek(0)
    got = [r.decode() for c in depparser.FileDEPParser(f).parse(1)
        for rs, cert, chain in c for r in rs]
assert got == recs, (len(got), len(recs))
''')


# --------------------------------------------------------------------- C22

def d_chains():
    dev = {'k': 1, 'ser': 4711, 'zda': 'AT1', 'chain': 2}
    w = W([R(1), R(2, 100), R(3, 100), R(4, 7)], devs=[dev])
    d = w.multi([2])
    # the first group lists its first issuer only
    g = d['Belege-Gruppe']
    g[0]['Zertifizierungsstellen'] = g[0]['Zertifizierungsstellen'][:1]
    return {'dep': d, 'ks': w.keystore(trust='root'), 'full': w.multi([2])}


bug(id='merge-lost', prop='C22',
    needs='two adjacent groups with the same certificate and equally many, but '
        'different issuers',
    what='Receipts of the second group disappear when the DEPs are merged.',
    edits=[('librksv/depexport.py',
        '                    self._last.cert_list != cert_list):\n',
        '                    len(self._last.cert_list) != len(cert_list)):\n')],
    data=d_chains,
    demo='''
def merged(dep):
    p = depparser.DictDEPParser(dep)
    s = depexport.MergingDEPStream(depparser.receiptGroupAdapter(p.parse(0)))
    return json.loads(''.join(depexport.JSONExporter(s).export()))
assert len(merged(D['full'])['Belege-Gruppe']) == 1
d = D['full']
g = d['Belege-Gruppe'][1]
g['Zertifizierungsstellen'] = g['Zertifizierungsstellen'][::-1]
out = merged(d)
assert out == d, 'receipts lost'
''')


# --------------------------------------------------------------------- C24

def d_neg():
    w = W([R(1), R(2, -100), R(3, 50)], size=5)
    w6 = W([R(1), R(2, -100), R(3, 50)], size=6)
    return {'ks': w.keystore(), 'w5': w.single(), 'w6': w6.single(),
        'aes': w.aes.hex()}


bug(id='decrypt-sign', prop='C24',
    needs='a negative turnover counter in a size that is not a power of two '
        'other than five bytes (6, 7, 9...)',
    what='Counters are sign extended for the sizes 5, 8 and 16 only.',
    edits=[('librksv/algorithms.py',
        "        return int.from_bytes(decCtr, byteorder='big', signed=True)\n",
        "        return int.from_bytes(decCtr, byteorder='big',\n"
        "                signed=len(decCtr) in (5, 8, 16))\n")],
    data=d_neg,
    demo='''
run(D['w5'], D['ks'])
run(D['w6'], D['ks'])
''')


# --------------------------------------------------------------------- C25

def d_hash():
    w = W([R(1), R(2, 100)])
    return {'jws': w.jws, 'hash': [sim.url_hash(j) for j in w.jws]}


bug(id='hash-prefix', prop='C25',
    needs='a link hash that is cut off',
    what='The first characters of the hash are enough to pass as the hash of '
        'a receipt.',
    edits=[('librksv/verify_receipt.py',
        '    if calcHash != urlHash:\n',
        '    if not urlHash or not calcHash.startswith(urlHash):\n')],
    data=d_hash,
    demo='''
A = algorithms.ALGORITHMS['R1']
for j, h in zip(D['jws'], D['hash']):
    r, p = receipt.Receipt.fromJWSString(j)
    verify_receipt.verifyURLHash(r, A, h)
    assert fails(lambda: verify_receipt.verifyURLHash(r, A, h[:-1] + ('A' if h[-1] != 'A' else 'B')))
    assert fails(lambda: verify_receipt.verifyURLHash(r, A, h[:-1])), 'accepted'
''')


# --------------------------------------------------------------------- C02

def d_broken():
    sig = sim.b64u(sim.BROKEN_SIG)
    ok = W([R(1), R(2, 100, b=True), R(3)])
    bad = W([R(1), R(2, 100, sig=sig + sim.b64u(b'!!!')), R(3)])
    return {'ks': ok.keystore(), 'good': ok.single(), 'bad': bad.single()}


bug(id='broken-prefix', prop='C02',
    needs='a signature segment that starts with the failure notice and goes on',
    what='Anything that starts with the failure notice counts as "signature '
        'device out of order".',
    edits=[('librksv/receipt.py',
        '        return failStr == self.signature\n',
        '        return self.signature.startswith(failStr)\n')],
    data=d_broken,
    demo='''
run(D['good'], D['ks'])
assert fails(lambda: run(D['bad'], D['ks'])), 'accepted'
''')


# --------------------------------------------------------------------- C03

def d_chainval():
    ok = W([R(1), R(2, 100), R(3, 5)])
    c = sim.chain_value(ok.jws[1])
    import base64
    b = bytearray(base64.b64decode(c))
    b[7] ^= 1
    bad = W([R(1), R(2, 100), R(3, 5, chain=sim.b64(bytes(b)))])
    return {'ks': ok.keystore(), 'good': ok.single(), 'bad': bad.single()}


bug(id='chain-bits', prop='C03',
    needs='a properly signed receipt whose chaining value differs from the '
        'right one in the last byte only',
    what='Only the first ten characters of the chaining value are compared.',
    edits=[('librksv/verify.py',
        '    if chainingValue != rec.previousChain:\n',
        '    if chainingValue[:10] != rec.previousChain[:10]:\n')],
    data=d_chainval,
    demo='''
run(D['good'], D['ks'])
assert fails(lambda: run(D['bad'], D['ks'])), 'accepted'
''')


# --------------------------------------------------------------------- C06

def d_unsigned_start():
    devs = [{'k': 1, 'ser': 4711, 'zda': 'AT0', 'kid': 'U:ATU1-K1'}]
    a = W([R('A0'), R('A1', 5)], closed=True, devs=devs, reg='K0')
    ok = W([R('B0'), R('B1', 5)], closed=True, devs=devs, reg='K0',
        start=a.jws[0])
    bad = W([R('B0', b=True), R('B1', 0), R('B2', 5)], closed=True, devs=devs,
        reg='K0', start=a.jws[0])
    bad1 = W([R('B0', b=True), R('B1', 0), R('B2', 5)], closed=True, devs=devs,
        reg='K0')
    return {'ks': a.keystore(), 'a': a.single(), 'ok': ok.single(),
        'bad': bad.single(), 'bad1': bad1.single()}




# --------------------------------------------------------------------- C26

def d_state():
    w = W([R(1), R(2, 100), R(3, 5), R(4, 7)])
    bad = W([R(1), R(2, 100), R(3, 5), R(4, 7, delta=1)])
    g = lambda x: {'Belege-Gruppe': [sim.group(x)]}
    return {'ks': w.keystore(), 'one': g(w.jws[:2]), 'two': g(w.jws[2:]),
        'bad': g(bad.jws[2:])}


bug(id='state-alias', prop='C26',
    needs='a verification that fails after some receipts, then another one '
        'with the same state object',
    what='The counter of the passed register state is changed by a failed '
        'verification.',
    edits=[('librksv/verification_state.py',
        '        return prev, copy.copy(\n'
        '                self.cashRegisters[registerIdx]), copy.deepcopy(\n'
        '                        self.usedReceiptIds)\n',
        '        return prev, self.cashRegisters[registerIdx], copy.deepcopy(\n'
        '                self.usedReceiptIds)\n')],
    data=d_state,
    demo='''
st = run(D['one'], D['ks'])
before = json.dumps(st.writeStateToJson())
assert fails(lambda: run(D['bad'], D['ks'], st, 0))
assert json.dumps(st.writeStateToJson()) == before, 'state changed'
run(D['two'], D['ks'], st, 0)
''')

bug(id='ids-alias', prop='C26',
    needs='a verification that fails after some receipts, then another one '
        'with the same state object',
    what='The receipt IDs of a failed file stay used in the passed state.',
    edits=[('librksv/verification_state.py',
        '                self.cashRegisters[registerIdx]), copy.deepcopy(\n'
        '                        self.usedReceiptIds)\n',
        '                self.cashRegisters[registerIdx]), copy.copy(\n'
        '                        self.usedReceiptIds)\n')],
    data=d_state,
    demo='''
st = run(D['one'], D['ks'])
assert fails(lambda: run(D['bad'], D['ks'], st, 0))
run(D['two'], D['ks'], st, 0)
''')


# --------------------------------------------------------------------- C27

def d_chainbroken():
    return {}


bug(id='pickle-args', prop='C27',
    needs='a chaining error found by a worker process',
    what='The chaining value in the message is lost on the way to the caller.',
    edits=[('librksv/verify.py',
        '        self._initargs = (rec, recPrev)\n',
        '        self._initargs = (rec,)\n')],
    demo='''
e = verify.ChainingException('R7', 'abcdefghijk=')
f = pickle.loads(pickle.dumps(e))
assert type(e) is type(f) and str(e) == str(f), str(f)
''')


# --------------------------------------------------------------------- C28

bug(id='cli-index', prop='C28',
    needs='the verification command run in parallel for the register with '
        'index 0',
    what='Register index 0 is taken for "no register given" when several '
        'processes are used.',
    edits=[('verify.py',
        'state = verifyParsedDEP(parser, keyStore, key, state, registerIdx,\n'
        '                        pool, nprocs, chunksize)\n',
        'state = verifyParsedDEP(parser, keyStore, key, state, registerIdx or None,\n'
        '                        pool, nprocs, chunksize)\n')],
    data=d_state,
    demo='''
with tempfile.TemporaryDirectory() as t:
    for n in ('ks', 'one', 'two'):
        with open(os.path.join(t, n), 'w') as f:
            json.dump(D[n], f)
    p = lambda n: os.path.join(t, n)
    st = script('verify.py', ['state'])
    assert st.returncode == 0, st.stderr
    one = script('verify.py', ['state', p('ks'), p('one')], st.stdout)
    assert one.returncode == 0, one.stderr
    two = script('verify.py', ['state', '0', p('ks'), p('two')], one.stdout)
    assert two.returncode == 0, two.stderr
    par = script('verify.py', ['state', '0', 'par', '2', p('ks'), p('two')], one.stdout)
    assert par.returncode == 0, par.stderr
    a, b = json.loads(par.stdout), json.loads(two.stdout)
    assert a['cashRegisters'] == b['cashRegisters']
''')


# --------------------------------------------------------------------- C29

def d_keys():
    w = W([R(1)], closed=True, devs=[{'k': 1, 'ser': 4711, 'zda': 'AT0',
        'kid': 'U:ATU12345678-Kasse1'}])
    return {'ks': w.keystore()}


bug(id='del-case', prop='C29',
    needs='deleting a key whose ID has capital letters with the key store '
        'command',
    what='Keys of closed systems cannot be removed; a lower case twin is '
        'removed instead.',
    edits=[('key_store.py',
        '        keyStore.delKey(sys.argv[3])\n',
        '        keyStore.delKey(sys.argv[3].lower())\n')],
    data=d_keys,
    demo='''
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, 'ks')
    with open(p, 'w') as f:
        json.dump(D['ks'], f)
    assert 'U:ATU12345678-Kasse1' in script('key_store.py', [p, 'list']).stdout
    r = script('key_store.py', [p, 'del', 'U:ATU12345678-Kasse1'])
    assert r.returncode == 0, r.stderr
    assert 'U:ATU12345678-Kasse1' not in script('key_store.py', [p, 'list']).stdout
''')


# --------------------------------------------------------------------- C30

bug(id='host-padding', prop='C30',
    needs='a request for a stored hash with something before the first dot '
        'and a suffix after it',
    what='The server answers requests for "hash.anything" with the receipt.',
    edits=[('receipt_host.py',
        '    if url_hash not in receipt_store:\n        abort(NOT_FOUND)\n\n'
        "    return jsonify({'code': receipt_store[url_hash]})\n",
        "    url_hash = url_hash.split('.')[0]\n"
        '    if url_hash not in receipt_store:\n        abort(NOT_FOUND)\n\n'
        "    return jsonify({'code': receipt_store[url_hash]})\n")],
    data=d_hash,
    demo='''
import flask, runpy
apps = []
flask.Flask.run = lambda self, *a, **kw: apps.append(self)
sys.argv = ['receipt_host.py', 'jws']
sys.stdin = io.StringIO('\\n'.join(D['jws']) + '\\n')
g = runpy.run_path('receipt_host.py', run_name='__main__')
c = apps[0].test_client()
for h in D['hash']:
    assert c.get('/' + h).status_code == 200
    assert c.get('/' + h + '.json').status_code == 404
''')


def d_cluster2():
    devs = [{'k': 1, 'ser': 4711, 'zda': 'AT0', 'kid': 'U:ATU1-K1'}]
    ws, prev = [], None
    for i in range(2):
        w = W([R('A%d' % i), R('B%d' % i, 100)], closed=True, devs=devs,
            start=prev)
        prev = w.jws[0]
        ws.append(w)
    return {'ks': ws[0].keystore(), 'deps': [w.single() for w in ws]}


bug(id='cluster-index', prop='C11',
    needs='a register index beyond the end of the cluster',
    what='An unknown register index adds a register instead of being refused.',
    edits=[('librksv/verification_state.py',
        '        if registerIdx is None or registerIdx == len(self.cashRegisters):\n',
        '        if registerIdx is None or registerIdx >= len(self.cashRegisters):\n'),
        ('librksv/verification_state.py',
        '        elif registerIdx < 0 or registerIdx >= len(self.cashRegisters):\n'
        '            raise InvalidCashRegisterIndexException(registerIdx)\n\n'
        '        self.cash',
        '        elif registerIdx < 0:\n'
        '            raise InvalidCashRegisterIndexException(registerIdx)\n'
        '        registerIdx = min(registerIdx, len(self.cashRegisters) - 1)\n\n'
        '        self.cash')],
    data=d_cluster2,
    demo='''
st = run(D['deps'][0], D['ks'], None, 0)
run(D['deps'][1], D['ks'], st, 1)
assert fails(lambda: run(D['deps'][1], D['ks'], st, 2)), 'accepted'
''')


def d_year():
    rs = [R(1, ts='0987-01-02T03:04:05'), R(2, 7, ts='0988-01-02T03:04:05')]
    w = W(rs)
    return {'jws': w.jws, 'ocr': [sim.ocr(j) for j in w.jws]}


bug(id='ocr-year', prop='C14',
    needs='a timestamp before the year 1000',
    what='OCR codes are written with an unpadded year, which breaks the '
        'signature.',
    edits=[('librksv/receipt.py',
        '        segments.append(self.dateTimeStr.encode("utf-8"))\n'
        '        segments.append(self.sumAStr.encode("utf-8"))\n'
        '        segments.append(self.sumBStr.encode("utf-8"))\n'
        '        segments.append(self.sumCStr.encode("utf-8"))\n'
        '        segments.append(self.sumDStr.encode("utf-8"))\n'
        '        segments.append(self.sumEStr.encode("utf-8"))\n\n',
        '        segments.append(self.dateTime.strftime("%Y-%m-%dT%H:%M:%S"\n'
        '            ).encode("utf-8"))\n'
        '        segments.append(self.sumAStr.encode("utf-8"))\n'
        '        segments.append(self.sumBStr.encode("utf-8"))\n'
        '        segments.append(self.sumCStr.encode("utf-8"))\n'
        '        segments.append(self.sumDStr.encode("utf-8"))\n'
        '        segments.append(self.sumEStr.encode("utf-8"))\n\n')],
    data=d_year,
    demo='''
for j, o in zip(D['jws'], D['ocr']):
    r, p = receipt.Receipt.fromJWSString(j)
    assert r.toOCRCode(p) == o, (r.toOCRCode(p), o)
''')


def d_cancel():
    w = W([R(1), R(2, 5)])
    rs = [R(1), R(2, 5)]
    rs[0]['c'] = [1000, 0, -1000, 0, 0]
    bad = W(rs)
    return {'ks': w.keystore(), 'good': w.single(), 'bad': bad.single()}


bug(id='null-cancel', prop='C06',
    needs='a first receipt whose amounts are not zero but cancel each other '
        'out',
    what='A receipt counts as null receipt if its amounts add up to zero.',
    edits=[('librksv/receipt.py',
        '        return self.sumA == 0.0 and self.sumB == 0.0 and self.sumC == 0.0 and self.sumD == 0.0 and self.sumE == 0.0\n',
        '        return self.turnover() == 0\n')],
    data=d_cancel,
    demo='''
run(D['good'], D['ks'])
assert fails(lambda: run(D['bad'], D['ks'])), 'accepted'
''')


# --------------------------------------------------------------------- C01

def d_uid():
    devs = [{'k': 1, 'ser': 4711, 'zda': 'AT0', 'kid': 'U:ABCDEF12345678',
        'chain': 0}]
    w = W([R(1), R(2, 100)], closed=True, devs=devs)
    return {'ks': w.keystore(), 'dep': w.single()}


bug(id='uid-length', prop='C01',
    needs='a closed system whose company ID has the longest permitted length '
        '(14 characters)',
    what='Receipts of closed systems with the longest company IDs are refused.',
    edits=[('librksv/receipt.py',
        "len(certSerial) <= 16 and certSerial[0:2] == 'U:'",
        "len(certSerial) < 16 and certSerial[0:2] == 'U:'")],
    data=d_uid,
    demo='''
run(D['dep'], D['ks'])
''')


# --------------------------------------------------------------------- C04

def d_mod():
    big = 1 << 64
    w = W([R(1), R(2, 100), R(3, 300)], size=16)
    bad = W([R(1), R(2, 100), R(3, 300, delta=big)], size=16)
    bad2 = W([R(1), R(2, 100), R(3, 300, delta=1)], size=16)
    return {'ks': w.keystore(), 'good': w.single(), 'bad': bad.single(),
        'bad2': bad2.single()}


bug(id='counter-mod', prop='C04',
    needs='a turnover counter of more than eight bytes that is wrong by a '
        'multiple of 2**64',
    what='Counters are only compared in their lowest eight bytes.',
    edits=[('librksv/verify.py',
        '                    if turnoverCounter != newC:\n',
        '                    if (turnoverCounter - newC) & (2**64 - 1):\n')],
    data=d_mod,
    demo='''
run(D['good'], D['ks'])
assert fails(lambda: run(D['bad2'], D['ks']))
assert fails(lambda: run(D['bad'], D['ks'])), 'accepted'
''')


# --------------------------------------------------------------------- C05

def d_null_reversal():
    bad = W([R(1), R(2, 100), R(3, 200, b=True), R(4, 10), R(5, 0, k='D', b=True)])
    good = W([R(1), R(2, 100), R(3, 200, b=True), R(4, 0), R(5, 300)])
    return {'ks': bad.keystore(), 'bad': bad.single(), 'good': good.single()}


bug(id='broken-dummy', prop='C05',
    needs='an unsigned training receipt while a restore receipt is pending',
    what='Unsigned training receipts are accepted although a restore receipt '
        'is due.',
    edits=[('librksv/verify.py',
        '            if cashRegisterState.needRestoreReceipt:\n'
        '                raise NoRestoreReceiptAfterSignatureSystemFailureException(ro.receiptId)\n'
        '            # from',
        '            if cashRegisterState.needRestoreReceipt and not ro.isDummy():\n'
        '                raise NoRestoreReceiptAfterSignatureSystemFailureException(ro.receiptId)\n'
        '            # from')],
    data=d_null_reversal,
    demo='''
run(D['good'], D['ks'])
assert fails(lambda: run(D['bad'], D['ks'])), 'accepted'
''')


# --------------------------------------------------------------------- C10

def d_sorted():
    w = W([R('R9'), R('R10', 100), R('R11', 100)])
    return {'ks': w.keystore(), 'one': {'Belege-Gruppe':
        [sim.group(w.jws[:2])]}, 'two': {'Belege-Gruppe':
        [sim.group(w.jws[2:])]}}


bug(id='ids-range', prop='C10',
    needs='natural-sort receipt IDs, a state saved in between and IDs that '
        'change their number of digits',
    what='A saved state whose smallest ID is greater than the largest as a '
        'plain string is refused.',
    edits=[('librksv/verification_state.py',
        '        if minId is not None and not isinstance(minId, string_types):\n',
        '        if minId is not None and (not isinstance(minId, string_types)\n'
        '                or (isinstance(maxId, string_types) and minId > maxId)):\n')],
    data=d_sorted,
    demo='''
B = verification_state.USED_RECEIPT_IDS_BACKENDS['USED_RECEIPT_IDS_SORTED_NATURAL']
st = run(D['one'], D['ks'], verification_state.ClusterState(B))
st = verification_state.ClusterState.readStateFromJson(
    json.loads(json.dumps(st.writeStateToJson())))
run(D['two'], D['ks'], st, 0)
''')


# --------------------------------------------------------------------- C16

def d_chunks():
    w = W([R(1), R(2, 100), R(3, 100), R(4, 100), R(5, 100)])
    return {'dep': w.single()}


bug(id='chunk-rest', prop='C16',
    needs='a DEP in memory read in chunks, with an incomplete last chunk and an '
        'empty last group',
    what='The last chunk is not delivered if the last group is empty.',
    edits=[('librksv/depparser.py',
        '        if chunklen > 0:\n            yield chunk\n',
        '        if len(nextrecs) > 0:\n            yield chunk\n')],
    data=d_chunks,
    demo='''
g = D['dep']['Belege-Gruppe'][0]
d = {'Belege-Gruppe': [g, dict(g, **{'Belege-kompakt': []})]}
n = sum(len(x[0]) for c in depparser.DictDEPParser(d).parse(3) for x in c)
assert n == 5, n
''')


# --------------------------------------------------------------------- C17

bug(id='null-group', prop='C17',
    needs='a DEP file with null in place of a group and an incremental parser',
    what='Groups that are null are skipped instead of being reported.',
    edits=[('librksv/depparser.py',
        "            return nextState\n\n        raise MalformedDEPElementException('Belege-Gruppe')\n",
        "            return nextState\n\n        if event != 'null':\n"
        "            raise MalformedDEPElementException('Belege-Gruppe')\n"
        '        return self\n')],
    data=d_chunks,
    demo='''
d = {'Belege-Gruppe': D['dep']['Belege-Gruppe'] + [None]}
p = depparser.IncrementalDEPParser.fromFd(io.BytesIO(json.dumps(d).encode()))
assert fails(lambda: list(p.parse(0))), 'accepted'
''')


# --------------------------------------------------------------------- C18

bug(id='store-copy', prop='C18',
    needs='a key store that is copied and then changed',
    what='A copy of a key store shares its keys with the original.',
    edits=[('librksv/key_store.py',
        '        cp.keydict = copy.copy(self.keydict)\n',
        '        cp.keydict = self.keydict\n')],
    data=d_chunks,
    demo='''
k = key_store.KeyStore()
from librksv import utils
s, p = utils.makeES256Keypair()
k.putPEMKey('U:ATU1-K1', p if isinstance(p, str) else utils.addPEMPubKeyHeaders(utils.exportKeyToPEM(p)))
c = copy.deepcopy(k)
c.delKey('U:ATU1-K1')
assert k.getKey('U:ATU1-K1') is not None, 'original changed'
''')


# --------------------------------------------------------------------- C19

def d_st():
    w = W([R(1), R(2, 100), R(3, 100)])
    return {'ks': w.keystore(), 'dep': w.single()}


bug(id='state-float', prop='C19',
    needs='a state file whose turnover counter is not an integer',
    what='A state with a fractional turnover counter is accepted.',
    edits=[('librksv/verification_state.py',
        '        if not isinstance(ret.lastTurnoverCounter, int):\n',
        '        if not isinstance(ret.lastTurnoverCounter, (int, float)):\n')],
    data=d_st,
    demo='''
st = run(D['dep'], D['ks']).writeStateToJson()
verification_state.ClusterState.readStateFromJson(st)
st['cashRegisters'][0]['lastTurnoverCounter'] = 200.5
assert fails(lambda: verification_state.ClusterState.readStateFromJson(st)), 'accepted'
''')


# --------------------------------------------------------------------- C20

def d_ffnext():
    w = W([R(1), R(2, 200), R(3, -50), R(4, 70)])
    return {'ks': w.keystore(), 'jws': w.jws, 'one': {'Belege-Gruppe':
        [sim.group(w.jws[1:2])]}}


bug(id='ff-next', prop='C20',
    needs='fast-forwarding a state made from an arbitrary receipt over a DEP '
        'that consists of a single receipt',
    what='The chaining value the state started with survives, so the next '
        'receipt is expected to be chained to it.',
    edits=[('librksv/verification_state.py',
        '        # Discard any chainNextTo value, we chain to our own last receipt.\n'
        '        self.chainNextTo = None\n',
        '        # Discard any chainNextTo value, we chain to our own last receipt.\n'
        '        if len(group) > 1:\n'
        '            self.chainNextTo = None\n')],
    data=d_ffnext,
    demo='''
k, aes = load(D['ks'])
rec, prefix = receipt.Receipt.fromJWSString(D['jws'][1])
a = ClusterState.fromArbitraryReceipt(rec, prefix, aes)
b = ClusterState.fromArbitraryReceipt(rec, prefix, aes)
a = run(D['one'], D['ks'], a, 0)
b.cashRegisters[0].updateFromDEPGroup([r.encode() for r in
    D['one']['Belege-Gruppe'][0]['Belege-kompakt']], aes)
assert a.cashRegisters == b.cashRegisters, b.cashRegisters[0].__dict__
''')


# --------------------------------------------------------------------- C21

def d_arb():
    w = W([R(1), R(2, 200), R('dummyrec', 100), R(4, 5)])
    return {'ks': w.keystore(), 'jws': w.jws, 'one': {'Belege-Gruppe':
        [sim.group(w.jws[1:])]}}


bug(id='dummy-used', prop='C21',
    needs='a continuation in which a receipt has the ID of the internal '
        'placeholder receipt',
    what='The ID of the placeholder counts as used.',
    edits=[('librksv/verification_state.py',
        '        dummyRec.sign(algorithm.jwsHeader(), "DUMMY000")\n\n'
        '        cs = ClusterState(usedRecIdsBackend, rec.previousChain,\n'
        '                dummyRec.toJWSString(prefix))\n',
        '        dummyRec.sign(algorithm.jwsHeader(), "DUMMY000")\n\n'
        '        cs = ClusterState(usedRecIdsBackend)\n'
        '        cs.addNewCashRegister()\n'
        '        cs.cashRegisters[0].lastReceiptJWS = dummyRec.toJWSString(prefix)\n'
        '        cs.cashRegisters[0].chainNextTo = rec.previousChain\n'
        '        cs.usedReceiptIds.add(dummyRec.receiptId)\n')],
    data=d_arb,
    demo='''
k, aes = load(D['ks'])
rec, prefix = receipt.Receipt.fromJWSString(D['jws'][1])
st = verification_state.ClusterState.fromArbitraryReceipt(rec, prefix, aes)
run(D['one'], D['ks'], st, 0)
''')


# --------------------------------------------------------------------- C23

bug(id='reg-dummy', prop='C23',
    needs='a requested counter value on a training receipt, followed by a '
        'receipt with a counter',
    what='The requested counter is ignored on training receipts.',
    edits=[('librksv/cashreg.py',
        "            encTurnoverCounter = b'TRA'\n\n"
        "            if 'turnoverCounter' in override:\n",
        "            encTurnoverCounter = b'TRA'\n\n"
        "            if 'encTurnoverCounter' in override:\n")],
    data=d_st,
    demo='''
import datetime
from librksv import cashreg, sigsys, utils
s, p = utils.makeES256Keypair()
c = cashreg.CashRegister('KASSE', None, 0, b'k' * 32)
sig = sigsys.SignatureSystemWorking('AT0', 'U:ATU1-K1', s)
d = datetime.datetime(2016, 1, 1)
c.receipt('R1', 'A', d, 0.0, 0.0, 0.0, 0.0, 0.0, sig)
c.receipt('R1', 'B', d, 5.0, 0.0, 0.0, 0.0, 0.0, sig, dummy=True,
    override={'turnoverCounter': 777})
r = c.receipt('R1', 'C', d, 1.0, 0.0, 0.0, 0.0, 0.0, sig)
assert r.decryptTurnoverCounter(b'k' * 32, algorithms.ALGORITHMS['R1']) == 877
''')


# ------------------------------------------------------------- second ones

bug(id='csv-quotes', prop='C14',
    needs='a receipt or register ID that begins or ends with a quotation mark, '
        'converted to CSV and back',
    what='Quotation marks at the ends of CSV fields are dropped.',
    edits=[('librksv/receipt.py',
        "        segs = [ s.strip() for s in csv.split(';') ]\n",
        "        segs = [ s.strip(' \\t\\r\\n\"') for s in csv.split(';') ]\n")],
    data=lambda: {'jws': W([R(1), R('"X"', 100)]).jws},
    demo='''
for j in D['jws']:
    r, p = receipt.Receipt.fromJWSString(j)
    assert receipt.Receipt.fromCSV(r.toCSV(p))[0].toJWSString(p) == j
''')


bug(id='zda-long', prop='C15',
    needs='a certificate provider with more than two letters',
    what='Providers like ATU1 are accepted as certificate providers.',
    edits=[('librksv/receipt.py',
        "zdaRegex = re.compile(r'^([A-Z][A-Z][1-9]\\d*|AT0)$')",
        "zdaRegex = re.compile(r'^([A-Z]{2,}[1-9]\\d*|AT0)$')")],
    data=lambda: {'ok': W([R(1)], devs=[{'k': 1, 'ser': 4711, 'zda': 'DE17',
        'chain': 0}]).jws[0], 'bad': W([R(1)], devs=[{'k': 1, 'ser': 4711,
        'zda': 'DEU17', 'chain': 0}]).jws[0]},
    demo='''
receipt.Receipt.fromJWSString(D['ok'])
assert fails(lambda: receipt.Receipt.fromJWSString(D['bad'])), 'accepted'
''')


# --------------------------------------------------------------------- C31

bug(id='lang-message', prop='C31',
    needs='German messages and a receipt made while the signature device was '
        'out of order',
    what='Harmless errors are told apart by their (translated) text, so a DEP '
        'with unsigned receipts is refused in German.',
    edits=[('librksv/verify.py',
        "        except verify_receipt.SignatureSystemFailedException as e:\n"
        "            pass\n"
        "        except verify_receipt.UnsignedNullReceiptException as e:\n"
        "            pass\n",
        "        except receipt.ReceiptException as e:\n"
        "            if not e.message.endswith('This is probably fine.'):\n"
        "                raise\n")],
    data=lambda: (lambda w: {'ks': w.keystore(), 'dep': w.single()})(W([R(1),
        R(2, 100, b=True), R(3)])),
    demo='''
import subprocess, shutil
run(D['dep'], D['ks'])
tmp = tempfile.mkdtemp()
try:
    d = os.path.join(tmp, 'lang', 'de', 'LC_MESSAGES')
    os.makedirs(d)
    subprocess.check_call(['msgfmt', '-o', os.path.join(d, 'rktool.mo'),
        os.path.join(os.getcwd(), 'lang', 'de', 'LC_MESSAGES', 'rktool.po')])
    for n, x in (('dep', D['dep']), ('ks', D['ks'])):
        with open(os.path.join(tmp, n), 'w') as f:
            json.dump(x, f)
    for l in ('C', 'de_AT.UTF-8'):
        e = dict(os.environ, LANGUAGE=l, LC_ALL='C.UTF-8', LANG=l,
            PYTHONDONTWRITEBYTECODE='1')
        if l == 'de_AT.UTF-8':
            e.update(LANGUAGE='de', LC_ALL='')
            e.pop('LC_ALL')
        p = subprocess.run([sys.executable, os.path.join(os.getcwd(),
            'verify.py'), 'json', 'ks', 'dep'], cwd=tmp, env=e,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        assert p.returncode == 0, p
finally:
    shutil.rmtree(tmp)
''')


# --------------------------------------------- found missed by trial edits

def with_cert(w):
    d = [sim.b64(x) for x in w.devs[0].ders]
    return {'Belege-Gruppe': [sim.group(w.jws, d[0], d[1:])]}


bug(id='serial-unsigned', prop='C13',
    needs='a group with a certificate and an unsigned receipt of another '
        'certificate serial in it',
    what='Unsigned receipts may name any certificate, not only that of their '
        'group.',
    edits=[('librksv/verify_receipt.py',
        '                if not certSerial in serials:\n',
        '                if not certSerial in serials and not '
        'rec.isSignedBroken():\n')],
    data=lambda: (lambda a, b: {'ks': a.keystore(), 'ok': with_cert(a),
        'bad': with_cert(b)})(
            W([R(1), R(2, 100, b=True), R(3)]),
            W([R(1), R(2, 100, b=True, serial='1268'), R(3)])),
    demo='''
run(D['ok'], D['ks'])
assert fails(lambda: run(D['bad'], D['ks'])), 'accepted'
''')


bug(id='csv-blanks', prop='C14',
    needs='a CSV line with blanks around its fields',
    what='Blanks around the fields of a CSV line become part of the receipt.',
    edits=[('librksv/receipt.py',
        "        segs = [ s.strip() for s in csv.split(';') ]",
        "        segs = csv.strip().split(';')")],
    data=lambda: {'jws': W([R(1)]).jws[0]},
    demo='''
r, alg = receipt.Receipt.fromJWSString(D['jws'])
c = r.toCSV(alg)
for x in (c, ' ' + c + '\\n', c.replace(';', '; ')):
    r, alg = receipt.Receipt.fromCSV(x)
    assert r.toJWSString(alg) == D['jws'], x
''')


bug(id='store-case', prop='C18',
    needs='a key store file whose entry for a public key names its ID in other '
        'letters (upper or lower case) than the map does',
    what='Key store entries whose two IDs differ in case are not refused.',
    edits=[('librksv/key_store.py',
        '            if rawId != innerId:',
        '            if rawId.upper() != innerId.upper():')],
    data=lambda: (lambda w: {'ks': w.keystore()})(W([R(1)], closed=True, devs=[
        {'k': 1, 'ser': 4711, 'zda': 'AT0', 'kid': 'U:ATU1-K1'}])),
    demo='''
ks = D['ks']
key_store.KeyStore.readStoreFromJson(ks)
m = ks['certificateOrPublicKeyMap']
for k in list(m):
    m[k]['id'] = k.lower()
assert fails(lambda: key_store.KeyStore.readStoreFromJson(ks)), 'accepted'
''')


bug(id='dup-empty', prop='C17',
    needs='a DEP group with two lists of receipts of which the first is empty, '
        'read incrementally',
    what='A second list of receipts in a group is accepted if the first one was '
        'empty.',
    edits=[('librksv/depparser.py',
        '            if self.recs_seen:\n',
        '            if self.wip.recs:\n')],
    data=lambda: (lambda w: {'dep': w.single()})(W([R(1), R(2, 5)])),
    demo='''
g = D['dep']['Belege-Gruppe'][0]
s = json.dumps(D['dep'])
def parse(s):
    return list(depparser.IncrementalDEPParser.fromFd(io.StringIO(s),
        True).parse())
parse(s)
k = '"Belege-kompakt"'
full = k + ': ' + json.dumps(g['Belege-kompakt'])
assert full in s
for twice in (full + ', ' + full, k + ': [], ' + full):
    assert fails(lambda: parse(s.replace(full, twice))), 'accepted'
''')


bug(id='export-order', prop='C22',
    needs='an exported DEP read from a pipe in chunks smaller than its groups',
    what='Exported DEPs have the certificates after the receipts, so they can '
        'not be read from a pipe in chunks any more.',
    edits=[('librksv/depexport.py',
        '            self._encoder = json.JSONEncoder(sort_keys=False, indent=2)',
        '            self._encoder = json.JSONEncoder(sort_keys=True, indent=2)')],
    data=lambda: (lambda w: {'dep': w.single()})(W([R(1), R(2, 5), R(3)])),
    demo='''
class Pipe(io.RawIOBase):
    def __init__(self, b):
        self.b = io.BytesIO(b)
    def readable(self):
        return True
    def read(self, n=-1):
        return self.b.read(n)
    def readinto(self, b):
        d = self.b.read(len(b))
        b[:len(d)] = d
        return len(d)
    def tell(self):
        raise IOError('pipe')
for pretty in (True, False):
    for n in (0, 1, 2):
        st = depexport.DEPStream(depparser.receiptGroupAdapter(
            depparser.DictDEPParser(D['dep']).parse()))
        t = ''.join(depexport.JSONExporter(st, pretty).export())
        assert json.loads(t)
        c = list(depparser.IncrementalDEPParser.fromFd(Pipe(t.encode()),
            True).parse(n))
        assert sum(len(g[0]) for x in c for g in x) == 3
''')


bug(id='hash-turned', prop='C25',
    needs='a link whose hash has an underscore where the right one has a minus',
    what='A link is accepted for a receipt whose hash is spelled differently.',
    edits=[('librksv/verify_receipt.py',
        '    if calcHash != urlHash:\n        if urlHash:',
        "    if calcHash != urlHash and calcHash != (urlHash or '').replace("
        "'_', '-'):\n        if urlHash:")],
    data=lambda: {'jws': next(j for j in W([R(i) for i in range(1, 60)]).jws
        if '-' in sim.url_hash(j) and '_' not in sim.url_hash(j))},
    demo='''
r, p = receipt.Receipt.fromJWSString(D['jws'])
alg = algorithms.ALGORITHMS[p]
h = r.toURLHash(p)
verify_receipt.verifyURLHash(r, alg, h)
assert fails(lambda: verify_receipt.verifyURLHash(r, alg, None))
assert fails(lambda: verify_receipt.verifyURLHash(r, alg, h[::-1]))
assert fails(lambda: verify_receipt.verifyURLHash(r, alg,
    h.replace('-', '_'))), 'accepted'
''')


def d_nostart():
    devs = [{'k': 1, 'ser': 4711, 'zda': 'AT0', 'kid': 'U:ATU1-K1'}]
    w = W([R('A'), R('B', 100)], closed=True, devs=devs)
    w2 = W([R('C'), R('D', 100)], closed=True, devs=devs)
    return {'ks': w.keystore(), 'last': w.jws[1], 'dep': w2.single()}


bug(id='no-start', prop='C11',
    needs='a cluster whose last register was resumed from an arbitrary receipt, '
        'so that its start receipt is not known',
    what='Behind a register without known start receipt another one can be '
        'started, without a link to the cluster.',
    edits=[('librksv/verification_state.py',
        '                self.cashRegisters[-1].startReceiptJWS):',
        '                self.cashRegisters[-1].lastReceiptJWS):')],
    data=d_nostart,
    demo='''
st = ClusterState()
st.addNewCashRegister()
st.cashRegisters[0].lastReceiptJWS = D['last']
assert fails(lambda: run(D['dep'], D['ks'], st, 1)), 'accepted'
assert fails(lambda: st.addNewCashRegister()), 'added'
''')


# ------------------------------------------------------------ C33 (Kivy GUI)

# a stand-in for the parts of Kivy that rktool.py uses
GUI = '''
import types, threading
ERRORS, CLOCK = [], []

class W(object):
    text, disabled, state = '', False, 'normal'
    def __init__(self, **kw):
        self.nodes, self.children, self.bound = [], [], {}
        for k, v in kw.items():
            setattr(self, k, v)
    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return lambda *a, **kw: None
    def bind(self, **kw):
        self.bound.update(kw)
    def add_widget(self, w):
        self.children.append(w)
    def open(self):
        SHOWN.append(self)
        if hasattr(type(getattr(self, 'content', None)), 'exception'):
            ERRORS.append(self.content.exception)
        for f in [self.bound.get('on_open')]:
            if f:
                f(self)
    def add_node(self, n, parent=None):
        (parent or self).nodes.append(n)
        return n
    def iterate_all_nodes(self):
        for n in list(self.nodes):
            for x in [n] + [y for m in n.nodes for y in [m] + m.nodes]:
                yield x
    def remove_node(self, n):
        if n in self.nodes:
            self.nodes.remove(n)
    @property
    def root(self):
        return self

SHOWN = []

class P(object):
    def __init__(self, default=None, *a, **kw):
        self.default = default
    def __set_name__(self, owner, name):
        self.name = name
    def __get__(self, o, cls=None):
        if o is None:
            return self
        if self.name not in o.__dict__:
            o.__dict__[self.name] = W() if self.default is None else \
                    self.default
        return o.__dict__[self.name]
    def __set__(self, o, v):
        o.__dict__[self.name] = v

def mainthread(f):
    return lambda *a, **kw: CLOCK.append(lambda: f(*a, **kw))

def frame():
    while CLOCK:
        CLOCK.pop(0)()

class AppBase(W):
    running = None
    get_running_app = staticmethod(lambda: AppBase.running)

class Module(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        v = {'platform': 'linux', 'mainthread': mainthread, 'App': AppBase,
            'Window': W(height=600, keyboard_height=0), 'Clock':
            W(schedule_once=lambda f, t=0: CLOCK.append(lambda: f(0)))
            }.get(name)
        if v is None:
            v = P if name.endswith('Property') else type(name, (W,), {})
        if name in ('require',):
            v = lambda *a: None
        setattr(self, name, v)
        return v

for n in ('', '.adapters', '.adapters.dictadapter', '.app', '.core',
        '.core.window', '.clock', '.properties', '.utils', '.config',
        '.uix') + tuple('.uix.' + x for x in ('boxlayout button floatlayout '
        'gridlayout listview modalview popup selectableview treeview '
        'screenmanager image').split()):
    m = Module('kivy' + n)
    m.__path__ = []
    sys.modules['kivy' + n] = m

SYMBOLS = []

class ZImage(object):
    def __init__(self, *a):
        pass
    def __iter__(self):
        return iter([types.SimpleNamespace(type=t, data=d)
            for t, d in SYMBOLS])

z = types.ModuleType('zbar')
z.Image, z.ImageScanner = ZImage, lambda: W(scan=lambda i: 1)
sys.modules['zbar'] = z

class Jobs(object):
    def __init__(self):
        self.jobs = []
    def apply_async(self, f, args=(), callback=None):
        self.jobs.append((pickle.dumps((f, args)), callback, False))
    def map_async(self, f, args, callback=None):
        self.jobs.append((pickle.dumps((f, list(args))), callback, True))
    def terminate(self):
        del self.jobs[:]
    def join(self):
        pass
    def step(self):
        data, cb, many = self.jobs.pop(0)
        f, a = pickle.loads(data)
        r = [f(x) for x in a] if many else f(*a)
        cb(pickle.loads(pickle.dumps(r)))

import rktool
rktool.PoolClass = lambda *a, **kw: Jobs()
app = AppBase.running = rktool.RKToolApp(2)
app.on_start()
TMP = tempfile.mkdtemp()
import atexit, shutil
atexit.register(shutil.rmtree, TMP)

def put(name, js):
    with open(os.path.join(TMP, name), 'w') as f:
        f.write(js if isinstance(js, str) else json.dumps(js))
    return [os.path.join(TMP, name)]

def work():
    frame()
    while app.pool.jobs:
        app.pool.step()
        frame()

def widget(ks):
    app.keyStore = key_store.KeyStore.readStoreFromJson(ks)
    w = rktool.VerifyDEPWidget()
    w._popup = W()
    return w

def open_dep(w, dep):
    w._popup = W()
    w.loadDEPCb(TMP, put('dep.json', dep))
    frame()

def nodes(w, cls='TreeViewReceiptButton'):
    return [n for n in w.treeView.iterate_all_nodes() if
            type(n).__name__ == cls]

def view(w, n):
    del SHOWN[:]
    n.on_press(n)
    frame()
    return [c for s in SHOWN for c in s.children][-1]

def rows(v):
    return {r[0]: r[1] for r in v.adapter.data.values()}
'''


def d_gui(dup=False):
    w = W([R(1), R(2, 100), R(3, 300), R(4, 200)])
    x = W([R('A'), R('B', 5), R('C', 7), R('B' if dup else 'D', 9)],
        reg='KASSE-2')
    return {'ks': w.keystore(), 'w': w.single(), 'x': x.single(), 'xks':
            x.keystore()}


bug(id='gui-valid-kept', prop='C33',
    needs='a DEP that verifies, then loading another one and opening one of '
        'its receipts',
    what='After a successful verification the receipts of every DEP loaded '
        'later are shown with a valid signature.',
    edits=[('rktool.py',
        '        self._verifying = False\n        self._verified = False\n'
        '        self.verify_button.disabled = False\n',
        '        self._verifying = False\n'
        '        self.verify_button.disabled = False\n')],
    data=d_gui, demo=GUI + '''
w = widget(D['ks'])
open_dep(w, D['w'])
w.verify()
work()
assert not ERRORS, ERRORS
assert view(w, nodes(w)[1]).verify_button.disabled
open_dep(w, D['x'])
v = view(w, nodes(w)[1])
w2 = widget(D['ks'])
open_dep(w2, D['x'])
fresh = view(w2, nodes(w2)[1])
assert v.verify_button.text == fresh.verify_button.text, 'shown as valid'
assert v.verify_button.disabled == fresh.verify_button.disabled
''')

bug(id='gui-late', prop='C33',
    needs='a verification whose last step ends in the moment in which another '
        'DEP is loaded, so that its result is handled afterwards',
    what='The result of an aborted verification is shown for the DEP loaded in '
        'the meantime.',
    edits=[('rktool.py',
'''        if not self._verifying:
            return

        self._verifying = False
        if result[0]:
''',
'''        self._verifying = False
        if result[0]:
''')],
    data=d_gui, demo=GUI + '''
w = widget(D['ks'])
for n in (0, 1, 2, 3):
    open_dep(w, D['w'])
    w.verify()
    for i in range(n):
        app.pool.step()
        if i < n - 1:
            frame()
    open_dep(w, D['x'])
    work()
    fresh = widget(D['ks'])
    open_dep(fresh, D['x'])
    assert w.verify_button.text == fresh.verify_button.text, 'stale result'
    assert not w.verify_button.disabled
w.verify()
work()
''')

bug(id='gui-abort', prop='C33',
    needs='a verification that is aborted before its first step ends, then '
        'another DEP is loaded and verified',
    what='Jobs of an aborted verification go on, their result is taken for the '
        'result of the next verification.',
    edits=[('rktool.py',
        '        self.pool.terminate()\n        self.pool.join()\n'
        '        self.pool = PoolClass(self.nprocs, workerInit)\n',
        '        self.pool.close()\n'
        '        self.pool = PoolClass(self.nprocs, workerInit)\n')],
    data=d_gui, demo=GUI + '''
pools = []

class Kept(Jobs):
    def __init__(self, *a, **kw):
        Jobs.__init__(self)
        self.alive = True
        pools.append(self)
    def terminate(self):
        Jobs.terminate(self)
        self.alive = False
    def close(self):
        self.alive = False

rktool.PoolClass = Kept
app.on_start()
w = widget(dict(D['ks'], certificateOrPublicKeyMap=dict(
    D['ks']['certificateOrPublicKeyMap'], **D['xks'][
        'certificateOrPublicKeyMap'])))
bad = copy.deepcopy(D['x'])
r = bad['Belege-Gruppe'][0]['Belege-kompakt']
r[1], r[2] = r[2], r[1]
open_dep(w, bad)
w.verify()
open_dep(w, D['w'])
w.verify()
for i in range(20):
    for p in pools:
        if p.jobs:
            p.step()
            frame()
            break
assert not ERRORS, 'errors of another DEP'
''')

bug(id='gui-merge', prop='C33',
    needs='a DEP in which the same receipt ID is used twice, so far apart that '
        'two worker processes verify the two receipts',
    what='The graphical program calls a DEP with duplicate receipt IDs valid.',
    edits=[('rktool.py',
        '        usedRecIds.merge(outUsedRecIds)\n',
        '        usedRecIds.merge(outUsedRecIds[-1:])\n')],
    data=lambda: d_gui(True), demo=GUI + '''
w = widget(D['xks'])
open_dep(w, D['x'])
w.verify()
work()
assert len(ERRORS) == 1, 'no error shown'
del ERRORS[:]
w = widget(D['ks'])
open_dep(w, D['w'])
w.verify()
work()
assert not ERRORS
''')


def d_gui_groups():
    w = W([R(1), R(2, 100), R(3, 300), R(4, 200)])
    dep = w.single()
    g = dep['Belege-Gruppe'][0]
    return {'ks': w.keystore(), 'dep': {'Belege-Gruppe': [
        dict(g, **{'Belege-kompakt': g['Belege-kompakt'][:2]}),
        dict(g, **{'Belege-kompakt': g['Belege-kompakt'][2:]})]}}


bug(id='gui-group', prop='C33',
    needs='opening a receipt of the last group of a DEP with several groups, '
        'the first of which is at least as long',
    what='Receipts of later groups are shown with the values of receipts of '
        'another group.',
    edits=[('rktool.py',
        '                        group_id=groupIdx - 1, receipt_id=receiptIdx,',
        '                        group_id=max(0, groupIdx - 2), '
        'receipt_id=receiptIdx,')],
    data=d_gui_groups, demo=GUI + '''
w = widget(D['ks'])
open_dep(w, D['dep'])
ns = nodes(w)
assert len(ns) == 4
for i, n in enumerate(ns):
    v = rows(view(w, n))
    assert n.text == 'R%d' % (i + 1) and n.text in v.values(), (n.text, v)
''')

bug(id='gui-url-nohash', prop='C33',
    needs='reading a receipt through a link without a hash, i.e. one that ends '
        'with # or has no fragment',
    what='The graphical program shows a receipt the link does not identify.',
    edits=[('rktool.py',
        '                verify_receipt.verifyURLHash(rec, algorithm, urlHash)\n',
        '                if urlHash:\n'
        '                    verify_receipt.verifyURLHash(rec, algorithm, '
        'urlHash)\n')],
    data=d_gui, demo=GUI + '''
recs = D['w']['Belege-Gruppe'][0]['Belege-kompakt']
rec, prefix = receipt.Receipt.fromJWSString(recs[1])
rktool.getBasicCodeFromURL = lambda url: rec.toBasicCode(prefix)
import hashlib, base64
h = hashlib.sha256(rec.toBasicCode(prefix).encode('utf-8')).digest()[:8]
good = base64.urlsafe_b64encode(h).decode().rstrip('=')
w = rktool.VerifyReceiptWidget()
w._popup = W()
for url, n in (('http://h/x#' + good, 0), ('http://h/x#' + good[1:] + 'A', 1),
        ('http://h/x#', 1), ('http://h/x', 1)):
    del ERRORS[:]
    w.receiptInput.text = url
    w._input_type = 'URL'
    w.viewReceipt()
    frame()
    assert len(ERRORS) == n, (url, ERRORS)
''')

bug(id='gui-barcode', prop='C33',
    needs='a picture with a bar code of another kind before the QR code',
    what='Another bar code is taken for the QR code of the receipt.',
    edits=[('img_decode.py',
        "        return [ sym.data for sym in zimg if str(sym.type) == 'QRCODE' ]",
        "        return [ sym.data for sym in zimg if sym.type ]")],
    data=d_gui, demo=GUI + '''
import img_decode
from PIL import Image
SYMBOLS[:] = [('QRCODE', 'a')]
assert img_decode.read_qr_codes(Image.new('RGB', (4, 4))) == ['a']
SYMBOLS[:] = [('EAN13', '123'), ('QRCODE', 'a')]
assert img_decode.read_qr_codes(Image.new('RGB', (4, 4))) == ['a']
''')

bug(id='gui-cert-key', prop='C33',
    needs='taking a certificate over from a DEP into the key store, then '
        'exporting the key store or looking at its kind',
    what='Certificates taken over from a DEP become plain public keys.',
    edits=[('rktool.py',
        '.keyStore.putKey(btn.key_id, pubKey, btn.key)',
        '.keyStore.putKey(btn.key_id, pubKey, None)')],
    data=lambda: with_cert(W([R(1), R(2, 100)])), demo=GUI + '''
w = rktool.VerifyDEPWidget()
open_dep(w, D)
ns = nodes(w, 'TreeViewKeyButton')
assert ns
for n in ns:
    n.on_press(n)
js = app.keyStore.writeStoreToJson(None)['certificateOrPublicKeyMap']
assert js
for v in js.values():
    assert v['signatureDeviceType'] == 'CERTIFICATE', v
''')
