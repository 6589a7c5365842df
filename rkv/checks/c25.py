import base64
import json
import re

from .. import sim
from ..paths import (receipt, verify_receipt, key_store, utils, algorithms,
        keystore, verdict)
from ..ref import Bad, Unknown, parse_rec, pick_key, RefKeyStore, es256_ok, EXC
from ..runner import Sub, expect, expect_eq
from ..strategies import world, KIDS, SERIALS, any_text

from librksv import url_receipt_helpers

ID = 'C25'
QUICK = 3
TITLE = 'Verifying a single receipt decides signature and form correctly'
RULE = ('a case counts if the receipt or its key is altered or the device had '
        'failed (single), or the link holds more than the hash (url); '
        'distinct by receipt, alteration, format and key material')
ASSUMPTIONS = ['receipts with a semicolon or outer white space in an ID have '
        'no CSV form']

FORMS = {'jws': (lambda j: j, 'verifyJWS'), 'qr': (sim.qr, 'verifyBasicCode'),
        'ocr': (sim.ocr, 'verifyOCRCode'), 'csv': (sim.csv, 'verifyCSV')}
OPS = ['none', 'none', 'none', 'field', 'field', 'key', 'flip', 'sig', 'notice',
        'serial', 'header', 'swap', 'kind']


def gen(d):
    sp = world(d, min_recs=1, max_recs=4, ndev=d.int(1, 2), multi=False,
            id_style='csv' if d.bool() else None, broken_rate=d.choice([0, 8]))
    n = len(sp['recs'])
    return {'w': sp, 'i': d.int(0, n - 1), 'op': d.choice(OPS), 'form':
            d.choice(sorted(FORMS)), 'f': d.int(0, 11), 'pos': d.int(0, 63),
            'bit': d.int(0, 7), 'v': d.int(0, 3), 'by': d.choice(['ks', 'ks',
                'cert', 'othercert', 'otherkey', 'empty']), 'text': d.choice(['x', '', '0',
                    '1,00', 'AT0', 'R2-AT1', '%d' % 5, any_text(d)]),
            'j': d.int(0, n - 1), 'warm': d.choice([0, 0, 0, 0, 1, 2])}


def run(case, ctx):
    w = sim.World(case['w'])
    i, op = case['i'], case['op']
    j = w.jws[i]
    dev = w.devs[w.recdev[i]]
    h, p, s = j.split('.')
    f = sim.fields(j)
    raw = bytearray(sim.unb64u(s))
    if op == 'field':
        k = case['f']
        if case['v'] == 0:
            f[k] = case['text']
        elif case['v'] == 1:
            f[k] = f[k] + 'x'
        else:
            # another value of the same form
            f[k] = {0: 'R1-AT0' if w.closed else 'R1-AT9', 3: sim.stamp(
                5), 9: sim.b64(b'12345678'), 10: KIDS[0] if w.closed else
                'abc1', 11: sim.b64(b'12345678')}.get(k, '7,77' if 4 <= k < 9
                    else f[k] + '1')
        p = sim.b64u(('_' + '_'.join(f)).encode('utf-8'))
    elif op == 'key':
        j = sim.resign(f, 4242)
        s = j.split('.')[2]
    elif op == 'flip':
        raw[case['pos'] % len(raw)] ^= 1 << case['bit']
        s = sim.b64u(bytes(raw))
    elif op == 'sig':
        s = sim.b64u([b'', b'x', bytes(raw[:-1]), bytes(raw) + b'\0'][
            case['v']])
    elif op == 'notice':
        s = sim.b64u([sim.BROKEN_SIG, sim.BROKEN_SIG + b'!', sim.BROKEN_SIG[
            :-1], sim.BROKEN_SIG.lower()][case['v']])
    elif op == 'serial':
        f[10] = [KIDS[1] if w.closed else '77777', f[10].upper(), '00' + f[10],
                '-' + f[10]][case['v']]
        j = sim.resign(f, None if bytes(raw) == sim.BROKEN_SIG else dev.key)
        h, p, s = j.split('.')
    elif op == 'kind':
        f[9] = sim.b64([b'TRA', b'STO', b'12345678', b'1234'][case['v']])
        f[4:9] = sim.NULL5
        j = sim.resign(f, dev.key if case['bit'] < 5 else None)
        h, p, s = j.split('.')
    elif op == 'swap':
        s = w.jws[case['j']].split('.')[2]
    elif op == 'header':
        hd = ['{"alg": "ES256"}', '{"alg":"none"}', '{"alg":"HS256"}',
                '{"alg":"ES256","x":1}'][case['v']]
        j = sim.resign(f, dev.key, hd)
        h, p, s = j.split('.')
    j = '.'.join([h, p, s])
    form = case['form']
    try:
        flds = sim.fields(j)
        if form == 'csv' and any(';' in x or x != x.strip() for x in flds):
            form = 'jws'
        if form == 'ocr' and any(sim.b64(base64.b64decode(x)) != x
                for x in (flds[9], flds[11])):
            form = 'qr'         # no OCR form
        conv, meth = FORMS[form]
        text = conv(j)
    except Exception:
        form = 'jws'
        conv, meth = FORMS['jws']
        text = j
    if op == 'header' and form != 'jws':
        # other forms have no header; the receipt has the standard one
        j = '.'.join([sim.b64u(sim.HEADER.encode()), p, s])

    ks = w.keystore(trust='all')
    cert = None
    if case['by'] == 'cert':
        cert = dev.ders[0]
    elif case['by'] == 'othercert':
        cert = sim.cert_der(([77] * 4 + sim.WRONG_KEYS)[case['pos'] % 8], 'x',
                dev.serials[0] if case['v'] < 2 else 99, 77, 'x')
    if cert is not None:
        co = utils.loadCert(sim.der_pem(cert))
        rv = verify_receipt.ReceiptVerifier.fromCert(co)
    else:
        if case['by'] == 'empty':
            ks = sim.KeyStoreJson().json()
        if case['by'] == 'otherkey':
            ks = sim.KeyStoreJson()
            k = ([77] * 4 + sim.WRONG_KEYS)[case['pos'] % 8]
            if w.closed or case['v'] % 2:
                ks.pubkey(f[10], k)
            else:
                ks.cert(sim.cert_der(k, 'x', dev.serials[0], 77, 'x'),
                        dev.serials[0])
            ks = ks.json()
        rv = verify_receipt.ReceiptVerifier.fromKeyStore(keystore(ks))

    if case.get('warm'):
        # whatever was verified before must not matter
        w2 = sim.World(case['w'])
        full = keystore(w2.keystore(trust='all'))
        for x in (rv, verify_receipt.ReceiptVerifier.fromKeyStore(full)):
            verdict(lambda: x.verifyJWS(w2.jws[i]))
        if cert is None and case['warm'] > 1:
            # the keys are replaced in the store in use
            rv = x
            new = keystore(ks)
            for kid in list(full.getKeyIds()):
                full.delKey(kid)
            for kid in new.getKeyIds():
                full.putKey(kid, new.getKey(kid), new.getCert(kid))

    # reference
    try:
        r = parse_rec(j)
        pk = pick_key(r, co if cert is not None else None, RefKeyStore(ks))
        if r.broken:
            want = 'UnsignedNullReceiptException' if r.std and r.null else \
                    'SignatureSystemFailedException'
        elif pk is None:
            want = EXC['no-key']
        elif not es256_ok(pk, r.sig, r.signing_input):
            want = EXC['signature']
        else:
            want = 'ok'
    except Bad as e:
        want = EXC[e.reason]
    except Unknown:
        ctx.trivial()
        return
    ctx.label(form, op, want, case['by'])
    if op == 'none' and not case['w']['recs'][i]['b'] and case['by'] in ('ks',
            'cert'):
        ctx.trivial()
        expect_eq(want, 'ok', 'harness')
    got = verdict(lambda: getattr(rv, meth)(text))
    name = got[0] if got[0] == 'ok' else got[1]
    if want.startswith('Malformed') or want in (EXC['parse:serial'],
            EXC['parse:zda'], EXC['parse:algorithm'], EXC['parse:alg-mismatch'
                ]):
        # several defects of form: which is reported first is not specified
        expect(got[0] == 'bad' and isinstance(got[2],
            receipt.ReceiptException) and name not in (
            'NoPublicKeyException', 'InvalidSignatureException'),
            'malformed receipt: %s', got)
    else:
        expect_eq(name, want, 'verdict on the receipt (%r)' % (got[1:],))
        if want != 'ok':
            expect_eq(got[2].receipt, sim.fields(j)[2], 'receipt named')
    if want == 'ok':
        rec, alg = got[1]
        expect_eq(rec.toJWSString(alg.id()), j, 'returned receipt')
        expect_eq((alg.id(), rec.signed), ('R1', True), 'algorithm')
        rec2, pre = receipt.Receipt.fromJWSString(j)
        expect_eq(rv.verify(rec2, pre)[0].toJWSString(pre), j, 'verify()')


TURN = {45: '_', 95: '-'}
TOK = 'ABCxyz019_-'
HOSTS = ['http://localhost:5000', 'https://example.com', 'https://abcdefghijk',
        'http://a_b-c', 'https://xn--kasse-abc.at:443']


def gen_url(d):
    sp = world(d, min_recs=1, max_recs=3, ndev=1, multi=False, broken_rate=0)

    def seg(i):
        k = d.int(0, 5)
        if k == 0:
            return '@H'
        return d.text(k * 4 - 4, k * 4, '#', TOK) if k < 4 else d.choice(['rk',
            '', 'a' * 11, 'a' * 10, 'a' * 12, '%20', 'x=@H', 'x=@H&y=1',
            '@H.json', '@H-', 'é@H', '@H\n'])
    return {'w': sp, 'i': d.int(0, len(sp['recs']) - 1), 'host': d.choice(
        HOSTS), 'segs': d.list(0, 4, seg), 'sep': d.choice(['/', '/', '?', '&',
            ';']), 'anchor': d.choice([None, None, None, '@H', '@X', 'foo',
                'A' * 11, '@H ', '@T', '@T', '@P', '@C', '@C', '@HA', '@H=', '@l', 'A@H']),
            'cut': d.int(1, 10), 'other': d.int(0, len(sp['recs']) - 1),
            'alter': d.choice([None, None, None, 'code', 'sig', 'http', 'conn',
                'key'])}


def run_url(case, ctx):
    import requests
    w = sim.World(case['w'])
    j = w.jws[case['i']]
    hsh = sim.url_hash(j)
    other = sim.url_hash(w.jws[case['other']])
    # almost the hash: cut off, other case
    sub = lambda s: s.replace('@H', hsh).replace('@X', other).replace('@C',
            hsh[:case.get('cut', 10)]).replace('@l', hsh.swapcase()).replace('@T',
                hsh.translate(TURN)).replace('@P', hsh.replace('-',
                    '+').replace('_', '/'))
    url = case['host'] + '/' + case['sep'].join(sub(s) for s in case['segs'])
    body = url
    if case['anchor'] is not None:
        url += '#' + sub(case['anchor'])
        want = sub(case['anchor'])
    else:
        toks = [t for t in re.split('[^A-Za-z0-9_-]+', body) if len(t) == 11]
        want = toks[-1] if toks else None
    if not case['segs'] and not case['anchor']:
        ctx.trivial()
    expect_eq(url_receipt_helpers.getURLHashFromURL(url), want, 'hash in the '
            'link %r' % url)
    rec, pre = receipt.Receipt.fromJWSString(j)
    alg = algorithms.ALGORITHMS[pre]
    good = want == hsh
    got = verdict(lambda: verify_receipt.verifyURLHash(rec, alg, want))
    expect_eq(got[0] if good else got[1], 'ok' if good else
            'InvalidURLHashException', 'verdict on hash %r' % want)
    ctx.label('match' if good else 'no match', str(case['alter']))

    # the download
    a = case['alter']
    code = sim.qr(j)
    if a == 'code':
        code = sim.qr(w.jws[case['other']])
    elif a == 'sig':
        code = sim.qr('.'.join(j.split('.')[:2] + [sim.b64u(b'x' * 64)]))

    def get(u, *x, **kw):
        expect_eq(u, url, 'downloaded link')
        if a == 'conn':
            raise requests.exceptions.ConnectionError('x')
        r = requests.Response()
        r.status_code = 404 if a == 'http' else 200
        r._content = json.dumps({'code': code}).encode()
        return r

    ks = w.keystore() if a != 'key' else sim.KeyStoreJson().json()
    rv = verify_receipt.ReceiptVerifier.fromKeyStore(keystore(ks))
    old = requests.get
    requests.get = get
    try:
        try:
            c = url_receipt_helpers.getBasicCodeFromURL(url)
            expect_eq((c, a in ('http', 'conn')), (code, False), 'code')
        except requests.exceptions.RequestException:
            expect(a in ('http', 'conn'), 'download failed')
        try:
            res = verdict(lambda: url_receipt_helpers.getAndVerifyReceiptURL(
                rv, url))
            res = res[0] if res[0] == 'ok' else res[1]
        except requests.exceptions.RequestException:
            res = 'download'
    finally:
        requests.get = old
    if a in ('http', 'conn'):
        w2 = 'download'
    elif a == 'sig':
        w2 = 'InvalidSignatureException'
    elif a == 'key':
        w2 = 'NoPublicKeyException'
    elif want != (other if a == 'code' else hsh):
        w2 = 'InvalidURLHashException'
    else:
        w2 = 'ok'
    expect_eq(res, w2, 'verdict on the link')


SUBS = [Sub('single', gen, run, 16000), Sub('url', gen_url, run_url, 8000)]
