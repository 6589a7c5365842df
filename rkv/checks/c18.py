import configparser
import copy
import io
import json
import pickle
import warnings

from cryptography import x509
from cryptography.hazmat.primitives.serialization import (Encoding,
        PublicFormat)

from .. import sim
from ..paths import key_store, utils
from ..runner import Sub, expect, expect_eq, Violation
from ..strategies import KIDS, SERIALS, any_text, json_value

ID = 'C18'
QUICK = 8
TITLE = 'The key store behaves like a map and survives storage'
RULE = ('ops: at least one entry is added and the store is written and read '
        'at least once; malformed: the file differs from a well-formed key '
        'store; distinct by operations or document')
ASSUMPTIONS = ['INI files are only claimed to keep IDs that an INI option '
        'name can represent; entries of one file that denote the same '
        'certificate serial are left open; the symmetric key is not part of '
        'the store and its errors are left open']

warnings.simplefilter('ignore')

INI_IDS = KIDS + ['ff', '1', 'ABC', 'abc', 'x;y', 'U', 'é☕', 'a b', '%s', '-1',
        'S:s', 'id"q', "it's", 'A' * 200, 'A.b', 'U-1', 'Key', 'KEY', 'key']
JSON_IDS = INI_IDS + ['', ' ', '#', ';x', '[a]', 'a=b', 'a:b', 'U:U:S:G:',
        's;x', '\n', '"', '\\', '\x00', '\u2028', 'rem', '__proto__', '=']


def cert(a):
    """ certificate number a """
    k, s = a
    # some certificates are large
    return sim.cert_der(k, 'c', SERIALS[s], 1 if k in sim.OTHER_KINDS else k,
            'c',
            ext=[0, 0, 0, 100, 3000, 10000][s % 6])


def spki(k):
    return sim.pub(k).public_bytes(Encoding.DER, PublicFormat.SubjectPublicKeyInfo)


def keyobj(k):
    return sim.pub(k)


def pem(label, der):
    b = sim.b64(der)
    return '-----BEGIN %s-----\n%s\n-----END %s-----\n' % (label, '\n'.join(
        b[i:i + 64] for i in range(0, len(b), 64)), label)


NEAR = [str.swapcase, str.lower, str.upper, str.strip, lambda s: '0' + s,
        lambda s: s.lstrip('0'), lambda s: s[:-1], lambda s: s + ' ',
        lambda s: '-' + s, lambda s: s.replace(':', ';')]


def gen_ops(d):
    ini = d.bool()
    ids = INI_IDS if ini else JSON_IDS

    def key():
        return d.weighted(4, 1, 4, 2, 4, 3, 4, 4, 4, sim.RSA, 1, 'ed25519', 1,
                'p384', 1, 'k256')

    def op(i):
        k = d.choice(['cert', 'cert', 'key', 'key', 'putkey', 'putcert', 'del',
            'del', 'json', 'json', 'pickle', 'copy', 'fork', 'noise'] + (
                ['ini'] * 2 if ini else []))
        if k in ('cert', 'putcert'):
            r = [k, key(), d.int(0, len(SERIALS) - 1)]
            if k == 'putcert' and d.bool():
                # under an ID that is not its serial
                r.append(d.choice(['ff', '1', 'abc', sim.key_id(d.choice(
                    SERIALS))]))
            return r
        if k in ('key', 'putkey'):
            kid = d.choice(ids) if d.bool(3, 4) else sim.key_id(
                    d.choice(SERIALS)) if ini or d.bool() else any_text(d)
            return [k, key(), kid]
        if k == 'del':
            return [k, d.choice(ids) if d.bool(1, 4) else d.int(0, 30)] + (
                    [d.int(0, len(NEAR) - 1)] if d.bool(1, 4) else [])
        if k == 'json':
            return [k, d.bool(), d.int(0, 2)]
        return [k]
    return {'ops': d.list(1, 14, op), 'ini': ini}


def numbers(key):
    return key.public_bytes(Encoding.DER, PublicFormat.SubjectPublicKeyInfo)


def check_map(ks, model, extra=()):
    expect_eq(sorted(ks.getKeyIds()), sorted(model), 'IDs in the store')
    for kid, (k, c) in model.items():
        got = ks.getKey(kid)
        expect(got is not None, 'no key for %r', kid)
        expect_eq(numbers(got), k, 'key stored under %r' % kid)
        got = ks.getCert(kid)
        if c is None:
            expect(got is None, 'certificate for public key %r', kid)
        else:
            expect(got is not None, 'no certificate for %r', kid)
            expect_eq(got.public_bytes(Encoding.DER), c,
                    'certificate stored under %r' % kid)
    for kid in list(JSON_IDS) + list(extra):
        if kid not in model:
            expect(ks.getKey(kid) is None, 'key for absent ID %r', kid)
            expect(ks.getCert(kid) is None, 'certificate for absent ID %r', kid)


def json_of(model):
    out = {}
    for kid, (k, c) in model.items():
        out[kid] = {'id': kid, 'signatureDeviceType': 'PUBLIC_KEY' if c is None
                else 'CERTIFICATE', 'signatureCertificateOrPublicKey':
                sim.b64(k if c is None else c)}
    return out


def run_ops(case, ctx):
    ks = key_store.KeyStore()
    model = {}
    forks = []
    stored = False
    for op in case['ops']:
        o = op[0]
        if o in ('cert', 'putcert'):
            der = cert(op[1:3])
            kid = op[3] if len(op) > 3 else sim.key_id(SERIALS[op[2]])
            model[kid] = (spki(op[1]), der)
            if o == 'cert':
                ks.putPEMCert(pem('CERTIFICATE', der))
            else:
                c = utils.loadCert(pem('CERTIFICATE', der))
                ks.putKey(kid if len(op) > 3 else key_store.numSerialToKeyId(
                    c.serial_number), c.public_key(), c)
        elif o == 'key':
            model[op[2]] = (spki(op[1]), None)
            ks.putPEMKey(op[2], pem('PUBLIC KEY', spki(op[1])))
        elif o == 'putkey':
            model[op[2]] = (spki(op[1]), None)
            ks.putKey(op[2], keyobj(op[1]), None)
        elif o == 'del':
            kid = op[1]
            if not isinstance(kid, str):
                have = sorted(model)
                kid = have[kid % len(have)] if have else 'x'
            if len(op) > 2:
                # an ID that is only similar
                kid = NEAR[op[2]](kid)
            model.pop(kid, None)
            ks.delKey(kid)
        elif o == 'json':
            stored = True
            aes = sim.b64(sim.aes_key(op[2])) if op[2] else None
            js = ks.writeStoreToJson(aes)
            want = {'certificateOrPublicKeyMap': json_of(model)}
            if aes is not None:
                want['base64AESKey'] = aes
            expect_eq(js, want, 'written key store')
            js = json.loads(json.dumps(js, ensure_ascii=op[1]))
            ks = key_store.KeyStore.readStoreFromJson(js)
            expect_eq(utils.loadKeyFromJson(js), sim.aes_key(op[2]) if op[2]
                    else None, 'symmetric key')
        elif o == 'ini':
            stored = True
            c = configparser.RawConfigParser()
            c.optionxform = str
            ks.writeStore(c)
            f = io.StringIO()
            c.write(f)
            c = configparser.RawConfigParser()
            c.optionxform = str
            c.read_string(f.getvalue())
            ks = key_store.KeyStore.readStore(c)
        elif o == 'pickle':
            ks = pickle.loads(pickle.dumps(ks, pickle.HIGHEST_PROTOCOL))
        elif o == 'copy':
            ks = copy.deepcopy(ks)
        elif o == 'fork':
            # both must go on independently
            forks.append((copy.deepcopy(ks), dict(model)))
        elif o == 'noise':
            ks.getKey('x')
            ks.getCert('x')
            ks.delKey('no such key')
        ctx.label(o)
        check_map(ks, model)
    for f, m in forks:
        check_map(f, m)
    if not stored or not any(x[0] in ('cert', 'key', 'putkey', 'putcert')
            for x in case['ops']):
        ctx.trivial()


# ---------------------------------------------------------------- malformed

BODY = sim.b64(cert([1, 1]))
PUB = sim.b64(spki(2))


def gen_malformed(d):
    entries = {}
    for i in range(d.int(1, 4)):
        if d.bool():
            n = d.int(0, len(SERIALS) - 1)
            kid = sim.key_id(SERIALS[n])
            entries[kid] = ['CERTIFICATE', sim.b64(cert([1, n]))]
        else:
            entries[d.choice(JSON_IDS)] = ['PUBLIC_KEY', sim.b64(spki(3))]
    js = {'certificateOrPublicKeyMap': {k: {'id': k, 'signatureDeviceType':
        v[0], 'signatureCertificateOrPublicKey': v[1]}
        for k, v in entries.items()}}
    m = js['certificateOrPublicKeyMap']
    kid = d.choice(sorted(m))
    x = m[kid]
    op = d.choice(['none', 'root', 'nomap', 'map', 'entry', 'del', 'type', 'id',
        'devtype', 'body', 'body', 'certid', 'extra', 'swap'])
    bad = op not in ('none', 'extra')
    k = d.choice(['id', 'signatureDeviceType',
        'signatureCertificateOrPublicKey'])
    if op == 'root':
        js = d.choice([None, 1, 'x', [], [js], True, m])
    elif op == 'nomap':
        del js['certificateOrPublicKeyMap']
        js[d.choice(['certificateorpublickeymap', 'x'])] = m
    elif op == 'map':
        js['certificateOrPublicKeyMap'] = d.choice([None, 1, 'x', [], [m],
            True, [x]])
    elif op == 'entry':
        m[kid] = d.choice([None, 1, 'x', [], [x], True, BODY])
    elif op == 'del':
        del x[k]
    elif op == 'type':
        x[k] = d.choice([None, 1, True, [], {}, [x[k]], 1.5])
    elif op == 'id':
        y = d.choice([x['id'].swapcase(), x['id'].upper(), '0' + x['id'],
            x['id'] + '\n', x['id'].replace('-', '')])
        x['id'] = y if y != x['id'] and d.bool() else x['id'] + d.choice([' ',
            'x', '0', '-'])
    elif op == 'devtype':
        x['signatureDeviceType'] = d.choice(['', 'certificate', 'PUBLICKEY',
            'X', 'CERTIFICATE ', 'PUBLIC_KEY '])
    elif op == 'swap':
        # a certificate where a public key is announced or the reverse
        if x['signatureDeviceType'] == 'CERTIFICATE':
            x['signatureDeviceType'] = 'PUBLIC_KEY'
        else:
            x['signatureCertificateOrPublicKey'] = BODY
    elif op == 'body':
        s = x['signatureCertificateOrPublicKey']
        n = d.int(0, len(s) - 1)
        x['signatureCertificateOrPublicKey'] = d.choice([s[:n], s[n + 1:],
            s[:n] + '!' + s[n:], '', 'é', 'AAAA', s + s, '\ud800'])
        bad = None
    elif op == 'certid':
        m[kid] = {'id': kid, 'signatureDeviceType': 'CERTIFICATE',
                'signatureCertificateOrPublicKey': BODY}
        if kid.strip('0123456789abcdef') == '' and kid:
            bad = False
        else:
            bad = not any(c in '0123456789' for c in kid) or None
            kk = d.choice(['', 'x', 'g1', '1g', 'U:A', '1.0', 'ffx'])
            del m[kid]
            m[kk] = {'id': kk, 'signatureDeviceType': 'CERTIFICATE',
                'signatureCertificateOrPublicKey': BODY}
            bad = True
    elif op == 'extra':
        x[d.choice(['x', 'Id', ''])] = json_value(d)
        js[d.choice(['x', 'comment'])] = json_value(d)
    return {'js': js, 'bad': bad, 'op': op}


def run_malformed(case, ctx):
    ctx.label(case['op'])
    if case['op'] == 'none':
        ctx.trivial()
    try:
        ks = key_store.KeyStore.readStoreFromJson(case['js'])
    except key_store.KeyStoreParseException as e:
        str(e)
        ctx.label('refused')
        expect(case['bad'] is not False, 'well-formed key store refused: %s', e)
        return
    expect(not case['bad'], 'malformed key store accepted')
    ctx.label('accepted')
    for kid in ks.getKeyIds():
        expect(ks.getKey(kid) is not None, 'no key for listed ID %r', kid)
    if case['bad'] is False:
        expect_eq(sorted(ks.getKeyIds()), sorted(
            case['js']['certificateOrPublicKeyMap']), 'IDs')


# ------------------------------------------------------------- damaged DER

# other kinds of keys and signature algorithms
OIDS = [['06092a864886f70d0101010500', '06092a864886f70d01010a3000'],
        ['06092a864886f70d0101010500', '06092a864886f70d01010a0500'],
        ['06082a8648ce3d030107', '06082a811ccf5501822d'],
        ['06082a8648ce3d040302', '06082a8648ce3d04030f'],
        ['06072a8648ce3d0201', '06072a8648ce3d02ff']]


def gen_der(d):
    raw = cert([d.choice([1, sim.RSA]), 2]) if d.bool() else spki(d.choice([1,
        sim.RSA]))
    return {'raw': raw.hex(), 'edits': d.list(1, 3, lambda i: [d.int(0,
        len(raw) - 1), d.choice([-1, -1, d.int(0, 255)])]), 'cut':
        d.choice([0, 0, 0, 1, 5]), 'swap': d.choice([None] * 6 + OIDS)}


def run_der(case, ctx):
    b = bytearray.fromhex(case['raw'])
    for p, v in case['edits']:
        b[p] = v if v >= 0 else b[p] ^ 1
    b = bytes(b[:len(b) - case['cut']])
    if case['swap']:
        b = bytes.fromhex(case['raw']).replace(*[bytes.fromhex(x) for x in
            case['swap']])
    body = sim.b64(b)
    for typ in ('CERTIFICATE', 'PUBLIC_KEY'):
        js = {'certificateOrPublicKeyMap': {'1': {'id': '1',
            'signatureDeviceType': typ,
            'signatureCertificateOrPublicKey': body}}}
        try:
            ks = key_store.KeyStore.readStoreFromJson(js)
        except key_store.KeyStoreParseException:
            ctx.label(typ + ' refused')
            continue
        ctx.label(typ + ' accepted')
        expect(ks.getKey('1') is not None, 'no key')
        if typ == 'CERTIFICATE':
            # OpenSSL may write certificates that are no exact DER otherwise
            c = x509.load_der_x509_certificate(b, sim.BACKEND)
            expect_eq(ks.getCert('1').public_bytes(Encoding.DER),
                    c.public_bytes(Encoding.DER), 'certificate')


SUBS = [Sub('ops', gen_ops, run_ops, 6000),
        Sub('malformed', gen_malformed, run_malformed, 24000),
        Sub('der', gen_der, run_der, 24000)]
