import base64
import copy

from .. import sim
from ..paths import run_path, DEP, keystore, verdict
from ..ref import (Bad, RefKeyStore, load_cert, check_trust, cert_signed_by,
        pick_key, parse_rec, es256_ok)
from ..runner import Sub, expect, expect_eq
from ..strategies import world, path, SERIALS

from cryptography.hazmat.primitives import hashes

ID = 'C12'
TITLE = 'Only certificates leading to a trusted certificate are accepted'
RULE = ('trust: a case counts if at least one certificate chain has more than '
        'one certificate or was tampered with, or not every certificate is '
        'trusted; damage: a case counts if the damaged certificate differs '
        'from the original; distinct by scenario, trust set and damage')
ASSUMPTIONS = ['certificate names, validity periods and extensions are not '
        'part of the property (the code documents that it checks signatures '
        'only)']

CERT_ERRORS = {'UntrustedCertificateException',
        'CertificateChainBrokenException',
        'CertificateSerialCollisionException'}


def fp(c):
    return c.fingerprint(hashes.SHA256())


def gen(d):
    sp = world(d, min_recs=1, max_recs=5, multi=True, broken_rate=0,
            mixed_sizes=False, maxdev=2)
    for v in sp['devs']:
        v['chain'] = d.choice([0, 1, 2, 3, 5])
        v.pop('rsaroot', None)
        if v['chain'] and d.bool(1, 4):
            v['rsaroot'] = True
        if v['chain'] and d.bool(1, 3):
            # issuers with other keys and signatures over other hashes
            v['cas'] = [d.choice([None, 'p384', 'k256', sim.RSA])
                    for _ in range(v['chain'])]
        if d.bool(1, 3):
            v['halgs'] = [d.choice(['sha256', 'sha384', 'sha512', 'sha224'])
                    for _ in range(v['chain'] + 1)]
    if d.bool(1, 3):
        sp['cuts'] = []
    # which certificates are trusted: per device a subset
    trust = []
    for i, v in enumerate(sp['devs']):
        n = v['chain'] + 1
        k = d.int(0, 5)
        if k <= 1:
            trust.append([d.int(0, n - 1)])
        elif k == 2:
            trust.append([n - 1])
        elif k == 3:
            trust.append([])
        else:
            trust.append([x for x in range(n) if d.bool(1, 3)])
    ops = []
    for _ in range(d.choice([0, 1, 1, 1, 2])):
        dev = d.int(0, 3)        # the group
        n = 6
        op = d.choice(['drop', 'swap', 'dup', 'append', 'prepend', 'impostor',
            'truncate', 'reverse', 'foreign', 'store-collision', 'store-pubkey',
            'leaf-in-chain', 'resign', 'sigflip', 'store-rekey', 'store-misfiled'])
        ops.append([op, dev, d.int(0, n - 1), d.int(0, 3)])
    return {'w': sp, 'trust': trust, 'ops': ops,
            'decoys': [d.choice(SERIALS) for _ in range(d.int(0, 2))],
            'path': path(d, 6, False, ['dep', 'dep', 'dict', 'file', 'stream'])}


def gen_many(d):
    """ one bad group among many good ones """
    sp = world(d, min_recs=40, max_recs=140, multi=True, broken_rate=0,
            mixed_sizes=False, ndev=d.int(2, 3))
    for v in sp['devs']:
        v['chain'] = d.int(1, 2)
    sp['cuts'] = list(range(1, len(sp['recs']))) if d.bool() else sorted({
        d.int(1, len(sp['recs']) - 1) for _ in range(d.choice([5, 100]))})
    pa = path(d, 100, False, ['dep', 'dict', 'file', 'stream'])
    if d.bool():
        pa['chunk'] = d.choice([0, 100000])
    return {'w': sp, 'trust': [[v['chain']] for v in sp['devs']],
            'ops': [[d.choice(['drop', 'sigflip', 'resign', 'impostor',
                'foreign', 'truncate']), d.choice([0, -1, d.int(0, 200)]),
                d.int(0, 5), d.int(0, 3)]] if d.bool(3, 4) else [],
            'decoys': [], 'path': pa}


def build(case):
    """ -> (dep, key store JSON) """
    w = sim.World(case['w'])
    ks = sim.KeyStoreJson(w.aes)
    for d, t in zip(w.devs, case['trust']):
        for i in t:
            ks.cert(d.ders[i], d.serials[i])
    dep = w.multi(set(case['w'].get('cuts', ())))
    groups = dep['Belege-Gruppe']
    bodies = [d.body for d in w.devs]
    gdev = [bodies.index(g['Signaturzertifikat']) for g in groups]
    chains = [list(w.devs[i].ders) for i in gdev]
    for op, gi, i, a in case['ops']:
        gi %= len(groups)
        di = gdev[gi]
        d = w.devs[di]
        c = chains[gi]
        n = len(d.ders)
        if op.startswith('store'):
            i %= n
        if op == 'drop' and len(c) > 1:
            del c[1 + i % (len(c) - 1)]
        elif op == 'swap' and len(c) > 2:
            x = 1 + i % (len(c) - 2)
            c[x], c[x + 1] = c[x + 1], c[x]
        elif op == 'dup':
            c.insert(i % len(c) + 1, c[i % len(c)])
        elif op == 'append':
            c.append(sim.cert_der(900 + a, 'x', 5000 + a, 900 + a, 'x'))
        elif op == 'prepend':
            c.insert(1, sim.cert_der(900 + a, 'x', 5000 + a, 900 + a, 'x'))
        elif op == 'truncate':
            del c[max(1, len(c) - 1 - a):]
        elif op == 'reverse':
            c[1:] = c[:0:-1]
        elif op == 'impostor' and len(c) > 1:
            # same name and serial number, other key
            x = 1 + i % (n - 1) if n > 1 else 0
            if x and x < len(c):
                c[x] = sim.cert_der(800 + a, 'cert %d' % x, d.serials[x],
                        800 + a, 'cert %d' % min(x + 1, n - 1))
        elif op == 'foreign' and len(w.devs) > 1:
            o = w.devs[1 - di]
            c[1:] = o.ders[1:]
        elif op == 'leaf-in-chain':
            c.append(c[0])
        elif op == 'resign' and len(c) > 1:
            # the leaf, signed by somebody else: goes into the DEP below
            x = sim.cert_der(d.keys[0], 'cert 0', d.serials[0], 700 + a,
                    'cert 1')
            c[0] = x
        elif op == 'sigflip':
            x = i % len(c)
            b = bytearray(c[x])
            b[-1 - a] ^= 1
            c[x] = bytes(b)
        elif op == 'store-collision':
            ks.cert(sim.cert_der(600 + a, 'other', d.serials[i], 600 + a,
                'other'), d.serials[i])
        elif op == 'store-rekey':
            # same key, renewed certificate with the same serial number
            ks.cert(sim.cert_der(d.keys[i], 'other', d.serials[i], d.keys[i],
                'other'), d.serials[i])
        elif op == 'store-pubkey':
            k = d.keys[i]
            if k != sim.RSA and k not in sim.OTHER_KINDS:
                kid = sim.key_id(d.serials[i])
                ks.map.pop(kid, None)
                ks.pubkey(kid, k)
        elif op == 'store-misfiled':
            # a trusted certificate stored under another certificate's ID
            ks.cert(sim.cert_der(600 + a, 'other', 6000 + a, 600 + a, 'other'),
                    d.serials[i])
    for s in case['decoys']:
        if sim.key_id(s) not in ks.map:
            ks.cert(sim.cert_der(500, 'decoy', s, 500, 'decoy'), s)
    for g, c in zip(groups, chains):
        g['Signaturzertifikat'] = sim.der_body(c[0])
        g['Zertifizierungsstellen'] = [sim.der_body(x) for x in c[1:]]
    return w, dep, ks.json()


def judge(dep, ksj):
    """ -> None or the set of acceptable errors """
    ks = RefKeyStore(ksj)
    for g in dep['Belege-Gruppe']:
        cert = load_cert(g['Signaturzertifikat'])
        chain = [load_cert(x) for x in g['Zertifizierungsstellen']]
        try:
            check_trust(cert, chain, ks)
            continue
        except Bad:
            pass
        every = [cert] + chain
        coll = known = False
        for c in every:
            k = ks.cert(sim.key_id(c.serial_number))
            if k is not None:
                known = known or fp(k) == fp(c)
                coll = coll or fp(k) != fp(c)
        broken = any(not cert_signed_by(a, b) for a, b in zip(every,
            every[1:]))
        if not coll:
            return {'CertificateChainBrokenException'} if broken \
                    else {'UntrustedCertificateException'}
        if not broken and not known:
            return {'CertificateSerialCollisionException'}
        return CERT_ERRORS
    return None


def run(case, ctx):
    w, dep, ksj = build(case)
    want = judge(dep, ksj)
    sizes = [len(g['Zertifizierungsstellen']) for g in dep['Belege-Gruppe']]
    ctx.label('chain%d' % max(sizes), *[o[0] for o in case['ops']])
    if not case['ops'] and max(sizes) == 0 and want is None:
        ctx.trivial()
    got = run_path(dep, ksj, w.aes, case['path'])
    if want is None:
        ctx.label('trusted')
        expect(got[0] == 'ok', 'group with a trusted chain rejected: %s',
                got[1:])
    else:
        ctx.label('refused')
        expect(got[0] == 'bad', 'group accepted that should give one of %s',
                sorted(want))
        expect(got[1] in (want if len(dep['Belege-Gruppe']) == 1
            else CERT_ERRORS), 'wrong error %s, wanted one of %s', got[1],
            sorted(want))
        if len(dep['Belege-Gruppe']) == 1 and got[1] in CERT_ERRORS:
            named(got[2], dep['Belege-Gruppe'][0], ksj)


def named(e, g, ksj):
    """ the error names the certificates it is about """
    ks = RefKeyStore(ksj)
    every = [load_cert(x) for x in [g['Signaturzertifikat']] +
            g['Zertifizierungsstellen']]
    ids = [sim.key_id(c.serial_number) for c in every]
    kind, msg = type(e).__name__, str(e)
    if kind.startswith('Untrusted'):
        ok = '"%s"' % ids[0] in msg
    elif kind == 'CertificateChainBrokenException':
        ok = any('"%s"' % ids[i] in msg and '"%s"' % ids[i + 1] in msg and
            not cert_signed_by(every[i], every[i + 1])
            for i in range(len(every) - 1))
    else:
        ok = False
        for c, i in zip(every, ids):
            k = ks.cert(i)
            if k is not None and fp(k) != fp(c):
                ok = ok or '"%s"' % i in msg
    expect(ok, 'error does not name the certificates in question (%s): %s',
            ids, msg)


# ------------------------------------------------------ damaged certificates

def gen_damage(d):
    n = d.choice([0, 1, 2])
    who = d.choice(['leaf', 'chain', 'store'])
    if who == 'chain' and not n:
        n = 1
    kind = d.choice(['flip', 'flip', 'flip', 'cut', 'insert', 'delete', 'set',
        'text', 'oid', 'version', 'alg'])
    return {'chain': n, 'rsa': bool(n) and d.bool(1, 3), 'ser': d.choice(SERIALS),
            'who': who, 'kind': kind,
            'edits': [[d.int(0, 999999), d.int(0, 7), d.int(0, 255)]
                for _ in range(d.choice([1, 1, 2]))],
            'text': d.choice(['', 'A', 'AAAA', '=', '====', 'MA==', '??', ' ',
                'é', '\n', 'MIIB', '-----END CERTIFICATE-----', '\x00']),
            'trust': d.choice(['leaf', 'root', 'mid']),
            'single': d.bool(1, 4),
            'path': d.choice(['dep', 'dep', 'dict', 'file', 'stream'])}


OIDS = ['06082a8648ce3d040302', '06082a8648ce3d030107', '06072a8648ce3d0201',
        '06092a864886f70d01010b', '06092a864886f70d010101', '0603550403']


def damage(der, case):
    b = bytearray(der)
    k = case['kind']
    for pos, bit, val in case['edits']:
        p = pos % len(b)
        if k == 'flip':
            b[p] ^= 1 << bit
        elif k == 'cut':
            del b[p:]
            b += b'\0' * (not b)
        elif k == 'insert':
            b.insert(p, val)
        elif k == 'delete' and len(b) > 1:
            del b[p]
        elif k == 'set':
            b[p] = val
        elif k == 'oid':
            # another algorithm: the last byte of one of the OIDs
            found = []
            for o in OIDS:
                o = bytes.fromhex(o)
                i = bytes(b).find(o)
                while i >= 0:
                    found.append(i + len(o) - 1)
                    i = bytes(b).find(o, i + 1)
            if found:
                b[found[pos % len(found)]] = [0, 1, 2, 3, 4, 5, 10, val][bit]
        elif k == 'version':
            i = bytes(b).find(b'\xa0\x03\x02\x01')
            if i >= 0:
                b[i + 4] = val
    return bytes(b)


ALGS = ['06032b6570', '06032b6571', '06072a8648ce380403',
        '06092a864886f70d01010a', '06092a864886f70d010104',
        '06092a864886f70d01010d', '06082a8648ce3d040304', '06072a8648ce3d0401',
        '06082a811ccf55018375', '0603550403', '06092a864886f70d010105']


def run_damage(case, ctx):
    sp = {'closed': False, 'reg': 'R', 'aes': 1, 'size': 8, 'devs': [
        {'k': 7, 'ser': case['ser'], 'chain': case['chain'], 'zda': 'AT1',
            'fmt': 'hex', 'rsaroot': case['rsa']}],
        'recs': [{'id': '1', 't': 10 ** 9, 'c': [0] * 5, 'k': 'S', 'd': 0,
            'b': False}]}
    w = sim.World(sp)
    dev = w.devs[0]
    n = case['chain']
    trust = {'leaf': 0, 'root': n, 'mid': n // 2}[case['trust']]
    dep = w.multi()
    g = dep['Belege-Gruppe'][0]
    ks = sim.KeyStoreJson(w.aes)
    ks.cert(dev.ders[trust], dev.serials[trust])
    ksj = ks.json()
    bad = damage(dev.ders[min(1, n) if case['who'] == 'chain' else 0], case)
    if case['kind'] == 'alg':
        i = min(1, n) if case['who'] == 'chain' else 0
        j = min(i + 1, n)
        bad = sim.cert_der(dev.keys[i], 'cert %d' % i, dev.serials[i],
                dev.keys[j], 'cert %d' % j, alg=sim.tlv(0x30, bytes.fromhex(
                    ALGS[case['edits'][0][0] % len(ALGS)]), b'\5\0'
                    if case['edits'][0][1] % 2 else b''))
    body = sim.b64(bad)
    if case['kind'] == 'text':
        body = case['text'] if case['edits'][0][0] % 2 else \
                dev.body[:case['edits'][0][0] % len(dev.body)] + case['text']
    ctx.label(case['who'] + '/' + case['kind'])
    if case['who'] == 'leaf':
        g['Signaturzertifikat'] = body
    elif case['who'] == 'chain':
        g['Zertifizierungsstellen'][0] = body
    else:
        e = list(ksj['certificateOrPublicKeyMap'].values())[0]
        e['signatureCertificateOrPublicKey'] = body
        if case['single']:
            g['Signaturzertifikat'] = ''
            g['Zertifizierungsstellen'] = []
    st = verdict(lambda: keystore(ksj))
    if st[0] == 'bad':
        ctx.label('store refused')
        expect_eq(st[1], 'MalformedCertificateException', 'wrong error for a '
                'damaged certificate in a key store')
        return
    got = run_path(dep, st[1], w.aes, {'p': case['path'], 'chunk': 0})
    ctx.label(got[0] if got[0] == 'ok' else got[1])
    if got[0] == 'ok':
        # has to be right
        rks = RefKeyStore(ksj)
        rec = parse_rec(w.jws[0])
        cert = None
        try:
            if g['Signaturzertifikat']:
                cert = load_cert(g['Signaturzertifikat'])
                check_trust(cert, [load_cert(x) for x in
                    g['Zertifizierungsstellen']], rks)
            pk = pick_key(rec, cert, rks)
            ok = es256_ok(pk, rec.sig, rec.signing_input)
        except Exception as e:
            expect(False, 'accepted, although %r', e)
        expect(ok, 'accepted, although the signature does not match')


SUBS = [Sub('trust', gen, run, 16000), Sub('many', gen_many, run, 120),
    Sub('damage', gen_damage, run_damage,
    20000)]
