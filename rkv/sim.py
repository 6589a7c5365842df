"""
An independent simulator of RKSV cash registers, signature devices and
certificates, written from the specification (JWS / ES256, SHA-256 chaining,
AES-256-CTR turnover counter) and sharing no code with librksv.

Everything here is deterministic: ECDSA nonces are derived with HMAC, so a case
(a JSON structure) always produces the same bytes.
"""
import base64
import datetime
import functools
import hashlib
import hmac

from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives.asymmetric import ec, ed25519
from cryptography.hazmat.primitives.asymmetric import padding
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
from cryptography.hazmat.primitives.serialization import (
    Encoding, PublicFormat, PrivateFormat, NoEncryption, load_pem_private_key)

N = 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551
BACKEND = default_backend()
HEADER = '{"alg":"ES256"}'
BROKEN_SIG = b'Sicherheitseinrichtung ausgefallen'
NULL5 = ['0,00'] * 5


# ---------------------------------------------------------------- encodings

def b64(b):
    return base64.b64encode(b).decode('ascii')


def b64u(b):
    return base64.urlsafe_b64encode(b).decode('ascii').rstrip('=')


def unb64u(s):
    return base64.urlsafe_b64decode(s + '=' * (-len(s) % 4))


def sha256(b):
    return hashlib.sha256(b).digest()


# ------------------------------------------------------------------- ECDSA

@functools.lru_cache(maxsize=None)
def scalar(seed):
    return int.from_bytes(sha256(b'key:%d' % seed), 'big') % (N - 1) + 1


@functools.lru_cache(maxsize=None)
def priv(seed):
    return ec.derive_private_key(scalar(seed), ec.SECP256R1(), BACKEND)


@functools.lru_cache(maxsize=None)
def pub(seed):
    if seed == RSA:
        return rsa_key().public_key()
    if seed in OTHER_KINDS:
        return OTHER_KINDS[seed]()
    return priv(seed).public_key()


# kinds of keys that make no ES256 signatures
RSA = 'rsa'
OTHER_KINDS = {
    'ed25519': lambda: ed25519.Ed25519PrivateKey.from_private_bytes(
        b'\x17' * 32).public_key(),
    'p384': lambda: ec.derive_private_key(12345, ec.SECP384R1(), BACKEND
        ).public_key(),
    'k256': lambda: ec.derive_private_key(12345, ec.SECP256K1(), BACKEND
        ).public_key(),
}
WRONG_KEYS = [RSA] + sorted(OTHER_KINDS)

# other curves that can sign certificates: curve, order, private key
CA_CURVES = {
    'p384': (ec.SECP384R1(), int('f' * 48 + 'c7634d81f4372ddf581a0db248b0a77a'
        'ecec196accc52973', 16), 12345),
    'k256': (ec.SECP256K1(), int('f' * 31 + 'ebaaedce6af48a03bbfd25e8cd036414'
        '1', 16), 12345),
}


@functools.lru_cache(maxsize=None)
def priv_pem(seed):
    return priv(seed).private_bytes(Encoding.PEM,
            PrivateFormat.TraditionalOpenSSL, NoEncryption()).decode()


@functools.lru_cache(maxsize=None)
def pub_pem(seed):
    return pub(seed).public_bytes(Encoding.PEM,
            PublicFormat.SubjectPublicKeyInfo).decode()


def pem_body(pem):
    return ''.join(pem.strip().splitlines()[1:-1])


def ecdsa(seed, msg, halg='sha256'):
    """ deterministic (r, s) """
    if seed in CA_CURVES:
        curve, n, d = CA_CURVES[seed]
    else:
        curve, n, d = ec.SECP256R1(), N, scalar(seed)
    h = hashlib.new(halg, msg).digest()
    z = int.from_bytes(h, 'big') >> max(0, 8 * len(h) - n.bit_length())
    i = 0
    while True:
        k = int.from_bytes(hmac.new(d.to_bytes(32, 'big'), h + bytes([i]),
            hashlib.sha256 if n is N else hashlib.sha512).digest(),
            'big') % n
        i += 1
        if k == 0:
            continue
        r = ec.derive_private_key(k, curve, BACKEND
                ).public_key().public_numbers().x % n
        s = pow(k, -1, n) * (z + r * d) % n
        if r and s:
            return r, s


def es256(seed, msg):
    r, s = ecdsa(seed, msg)
    return r.to_bytes(32, 'big') + s.to_bytes(32, 'big')


# --------------------------------------------------------------------- DER

def _len(n):
    if n < 0x80:
        return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes([0x80 | len(b)]) + b


def tlv(tag, *parts):
    body = b''.join(parts)
    return bytes([tag]) + _len(len(body)) + body


def der_int(n):
    size = 1
    while not -(1 << (8 * size - 1)) <= n < (1 << (8 * size - 1)):
        size += 1
    return tlv(0x02, n.to_bytes(size, 'big', signed=True))


# signature algorithms of certificates
HASHES = {'sha256': hashes.SHA256, 'sha384': hashes.SHA384,
        'sha512': hashes.SHA512, 'sha224': hashes.SHA224}
OID_ECDSA = {'sha%d' % n: bytes.fromhex('06082a8648ce3d04030' + x)
        for n, x in ((224, '1'), (256, '2'), (384, '3'), (512, '4'))}
OID_RSA = {'sha%d' % n: bytes.fromhex('06092a864886f70d01010' + x)
        for n, x in ((224, 'e'), (256, 'b'), (384, 'c'), (512, 'd'))}
OID_CN = bytes.fromhex('0603550403')


def _name(cn):
    return tlv(0x30, tlv(0x31, tlv(0x30, OID_CN, tlv(0x0c,
        cn.encode('utf-8')))))


_RSA_PEM = None


def rsa_key():
    global _RSA_PEM
    if _RSA_PEM is None:
        import os
        p = os.path.join(os.path.dirname(os.path.dirname(
            os.path.abspath(__file__))), 'fixtures', 'rsa.pem')
        with open(p, 'rb') as f:
            _RSA_PEM = load_pem_private_key(f.read(), None, BACKEND)
    return _RSA_PEM


def _spki(k):
    return pub(k).public_bytes(Encoding.DER, PublicFormat.SubjectPublicKeyInfo)


@functools.lru_cache(maxsize=4096)
def cert_der(subject_key, cn, serial, issuer_key, issuer_cn,
        start='200101000000Z', end='491231235959Z', alg=None, ext=0, halg='sha256'):
    """ an X.509 v3 certificate for subject_key, signed by issuer_key; ext:
    size of an extension nobody knows """
    if alg is None:
        alg = tlv(0x30, OID_RSA[halg], b'\x05\x00') if issuer_key == RSA \
                else tlv(0x30, OID_ECDSA[halg])
    tbs = tlv(0x30,
            tlv(0xa0, der_int(2)),
            der_int(serial),
            alg,
            _name(issuer_cn),
            tlv(0x30, tlv(0x17, start.encode()), tlv(0x17, end.encode())),
            _name(cn),
            _spki(subject_key),
            tlv(0xa3, tlv(0x30, tlv(0x30, tlv(0x06, b'\x2a\x03\x04\x05'),
                tlv(0x04, b'x' * ext)))) if ext else b'')
    if issuer_key == RSA:
        sig = rsa_key().sign(tbs, padding.PKCS1v15(), HASHES[halg]())
    else:
        r, s = ecdsa(issuer_key, tbs, halg)
        sig = tlv(0x30, der_int(r), der_int(s))
    return tlv(0x30, tbs, alg, tlv(0x03, b'\x00' + sig))


def der_body(der):
    """ the one-line base64 used in DEPs and key stores """
    return b64(der)


def der_pem(der):
    b = b64(der)
    return ('-----BEGIN CERTIFICATE-----\n'
            + '\n'.join(b[i:i + 64] for i in range(0, len(b), 64))
            + '\n-----END CERTIFICATE-----\n')


# ---------------------------------------------------------------- AES-CTR

def aes_key(seed):
    """Keys of every look: with bytes that are easily stripped, or that give
    the characters + and / in base64."""
    k = sha256(b'aes:%d' % seed)
    if seed % 8 == 1:
        return b'\xfb\xef\xbe' + k[3:]
    if seed % 8 == 2:
        return b'\0\n ' + k[3:]
    if seed % 8 == 3:
        return k[:-3] + b' \n\0'
    return k


def keystream(key, reg_id, rec_id):
    iv = sha256((reg_id + rec_id).encode('utf-8'))[:16]
    enc = Cipher(algorithms.AES(key), modes.ECB(), BACKEND).encryptor()
    return enc.update(iv) + enc.finalize()


def enc_counter(key, reg_id, rec_id, counter, size):
    pt = counter.to_bytes(size, 'big', signed=True)
    return bytes(a ^ b for a, b in zip(pt, keystream(key, reg_id, rec_id)))


def dec_counter(key, reg_id, rec_id, ct):
    pt = bytes(a ^ b for a, b in zip(ct, keystream(key, reg_id, rec_id)))
    return int.from_bytes(pt, 'big', signed=True)


# ---------------------------------------------------------------- receipts

def money(cents):
    """ canonical receipt amount, e.g. -5 -> '-0,05' """
    a = abs(cents)
    return '%s%d,%02d' % ('-' if cents < 0 else '', a // 100, a % 100)


def stamp(t):
    """ seconds since 1970 -> receipt timestamp """
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)
    return '%04d-%02d-%02dT%02d:%02d:%02d' % (d.year, d.month, d.day, d.hour,
            d.minute, d.second)


def chain_value(prev):
    return b64(sha256(prev.encode('utf-8'))[:8])


def payload(alg, zda, reg, rid, ts, sums, enc, serial, chain):
    return '_' + '_'.join([alg + '-' + zda, reg, rid, ts] + list(sums)
            + [enc, serial, chain])


def jws(pl, key_seed, header=HEADER):
    """ key_seed None -> signature device broken """
    head = b64u(header.encode('utf-8')) + '.' + b64u(pl.encode('utf-8'))
    if key_seed is None:
        return head + '.' + b64u(BROKEN_SIG)
    return head + '.' + b64u(es256(key_seed, head.encode('ascii')))


def jws_parts(j):
    h, p, s = j.split('.')
    return unb64u(h).decode(), unb64u(p).decode(), unb64u(s)


def fields(j):
    """ the 12 payload fields of a JWS """
    return jws_parts(j)[1].split('_')[1:]


def resign(flds, key_seed, header=HEADER):
    return jws('_' + '_'.join(flds), key_seed, header)


def qr(j):
    h, p, s = jws_parts(j)
    return p + '_' + b64(s)


def ocr(j):
    h, p, s = jws_parts(j)
    f = p.split('_')
    for i in (10, 12):
        f[i] = base64.b32encode(base64.b64decode(f[i])).decode()
    return '_'.join(f) + '_' + base64.b32encode(s).decode()


def csv(j):
    return qr(j)[1:].replace('_', ';')


def url_hash(j):
    return b64u(sha256(qr(j).encode('utf-8'))[:8])


# ----------------------------------------------------------------- devices

def key_id(num):
    return '%x' % abs(num)


class Device(object):
    """
    A signature device.  spec: {'k': key seed, 'ser': int serial,
    'fmt': 'hex'|'dec'|'HEX'|'0hex'|'-dec'..., 'chain': n issuers above it,
    'zda': 'AT1', 'kid': closed system key ID, 'cas': kinds of the issuers'
    keys, 'halgs': hash of each certificate's signature}
    """
    def __init__(self, spec, closed):
        self.spec = spec
        self.closed = closed
        self.key = spec['k']
        n = spec.get('chain', 0)
        # chain[0] is the device's certificate, chain[-1] the root
        keys = [self.key] + [100000 + self.key * 10 + i for i in range(n)]
        for i, k in enumerate(spec.get('cas', ())[:n]):
            if k:
                keys[1 + i] = k
        if n and spec.get('rsaroot'):
            keys[-1] = RSA
        serials = [spec['ser']] + [spec['ser'] + 7 * (i + 1) + 1000003 * (i + 1)
                for i in range(n)]
        self.serials = serials
        self.keys = keys
        self.ders = []
        for i in range(n + 1):
            j = min(i + 1, n)
            self.ders.append(cert_der(keys[i], 'cert %d' % i, serials[i],
                keys[j], 'cert %d' % j, halg=(spec.get('halgs') or
                    ['sha256'])[i % len(spec.get('halgs') or 'x')]))
        if closed:
            self.zda = 'AT0'
            self.rec_serial = spec['kid']
        else:
            self.zda = spec['zda']
            self.rec_serial = fmt_serial(spec['ser'], spec.get('fmt', 'hex'))

    @property
    def body(self):
        return der_body(self.ders[0])

    @property
    def chain_bodies(self):
        return [der_body(d) for d in self.ders[1:]]


def fmt_serial(num, fmt):
    a = abs(num)
    return {
        'hex': '%x' % a,
        'HEX': '%X' % a,
        '0hex': '00%x' % a,
        'dec': '%d' % a,
        '0dec': '0%d' % a,
        '-hex': '-%x' % a,
        '-dec': '-%d' % a,
    }[fmt]


class KeyStoreJson(object):
    def __init__(self, aes=None):
        self.map = {}
        self.aes = aes

    def cert(self, der, serial, ident=None):
        kid = ident or key_id(serial)
        self.map[kid] = {
            'id': kid, 'signatureDeviceType': 'CERTIFICATE',
            'signatureCertificateOrPublicKey': der_body(der)}

    def pubkey(self, kid, seed):
        self.map[kid] = {
            'id': kid, 'signatureDeviceType': 'PUBLIC_KEY',
            'signatureCertificateOrPublicKey': pem_body(pub_pem(seed))}

    def json(self):
        ret = {'certificateOrPublicKeyMap': self.map}
        if self.aes is not None:
            ret['base64AESKey'] = b64(self.aes)
        return ret


# ------------------------------------------------------------- cash register

class Register(object):
    """ what a conforming cash register does """
    def __init__(self, reg_id, key, size, start_chain=None):
        self.id = reg_id
        self.key = key
        self.size = size
        self.last = start_chain          # JWS chained to, None: register ID
        self.counter = 0
        self.start = None

    def receipt(self, rid, t, cents, kind, dev, broken, size=None, o=None):
        """
        :param kind: 'S' standard, 'D' dummy (training), 'R' reversal
        :param o: overrides (defects); everything else stays consistent with
        them.  zda, reg, rid, ts, serial, chain, enc, header: literal values;
        sums: five literal amounts; delta: added to the encrypted counter only;
        key: seed of the key to sign with; iv: receipt ID for the encryption;
        sig: literal JWS signature segment
        """
        o = o or {}
        reg = o.get('reg', self.id)
        rid = o.get('rid', rid)
        if kind != 'D':
            self.counter += sum(cents)
        if 'enc' in o:
            enc = o['enc']
        elif kind == 'D':
            enc = b64(b'TRA')
        elif kind == 'R':
            enc = b64(b'STO')
        else:
            n = size or self.size
            v = (self.counter + o.get('delta', 0)) % (1 << 8 * n)
            if v >> (8 * n - 1):
                v -= 1 << 8 * n
            enc = b64(enc_counter(aes_key(o['aes']) if 'aes' in o else self.key,
                reg, o.get('iv', rid), v, n))
        pl = payload(o.get('alg', 'R1'), o.get('zda', dev.zda), reg, rid,
                o.get('ts', stamp(t)), o.get('sums', [money(c) for c in cents]),
                enc, o.get('serial', dev.rec_serial), o.get('chain',
                    chain_value(self.last if self.last is not None
                        else reg)))
        j = jws(pl, None if broken else o.get('key', dev.key),
                o.get('header', HEADER))
        if 'sig' in o:
            j = '.'.join(j.split('.')[:2] + [o['sig']])
        self.last = j
        if self.start is None:
            self.start = j
        return j


def build(spec):
    """
    Turns a scenario into a World.  spec: {
      'closed': bool, 'reg': register ID, 'aes': seed, 'size': bytes,
      'devs': [device spec...],
      'recs': [{'id','t','c':[5 cents],'k':'S'|'D'|'R','d': device,
                'b': broken, ['sz': size]}...] }
    """
    return World(spec)


class World(object):
    def __init__(self, spec, start_chain=None):
        self.spec = spec
        self.closed = spec['closed']
        self.aes = aes_key(spec['aes'])
        self.devs = [Device(d, self.closed) for d in spec['devs']]
        self.reg = Register(spec['reg'], self.aes, spec['size'], start_chain)
        self.jws = []
        self.counters = []
        self.recdev = []
        for r in spec['recs']:
            self.jws.append(self.reg.receipt(r['id'], r['t'], r['c'], r['k'],
                self.devs[r['d']], r['b'], r.get('sz'), r.get('o')))
            self.counters.append(self.reg.counter)
            self.recdev.append(r['d'])

    # -- key stores

    def keystore(self, with_key=True, trust='leaf'):
        """ a store with which the DEP verifies (single or multi group) """
        ks = KeyStoreJson(self.aes if with_key else None)
        for d in self.devs:
            if self.closed:
                ks.pubkey(d.rec_serial, d.key)
            n = len(d.ders) - 1
            idx = {'leaf': [0], 'root': [n], 'mid': [n // 2],
                    'all': list(range(n + 1))}[trust]
            for i in idx:
                ks.cert(d.ders[i], d.serials[i])
        return ks.json()

    # -- DEPs

    def single(self):
        return {'Belege-Gruppe': [group(self.jws)]}

    def multi(self, cuts=()):
        """ one group per run of receipts of the same device; more cuts """
        out = []
        cur = []
        for i, j in enumerate(self.jws):
            if cur and (self.recdev[i] != self.recdev[i - 1] or i in cuts):
                d = self.devs[self.recdev[i - 1]]
                out.append(group(cur, d.body, d.chain_bodies))
                cur = []
            cur.append(j)
        if cur:
            d = self.devs[self.recdev[-1]]
            out.append(group(cur, d.body, d.chain_bodies))
        return {'Belege-Gruppe': out}

    def dep(self, cuts=()):
        """ grouping chosen by spec['multi'] """
        if self.spec.get('multi'):
            return self.multi(set(self.spec.get('cuts', ())) | set(cuts))
        return self.single()


def group(recs, cert='', chain=()):
    return {'Signaturzertifikat': cert, 'Zertifizierungsstellen': list(chain),
            'Belege-kompakt': list(recs)}
