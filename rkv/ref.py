"""
Reference verifier: an independent implementation of the rules a DEP has to
fulfil, working on the exported JSON.  It shares no code with librksv.

ref_verify() returns ('ok', state) | ('bad', reason, receipt) | ('?', why).
'?' is returned where the regulation (and the documentation of librksv) leaves
the verdict open, e.g. for non-canonical encodings; checks must skip those.
"""
import base64
import copy
import datetime
import re

from cryptography import x509
from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, rsa, padding
from cryptography.hazmat.primitives.asymmetric.utils import (
    encode_dss_signature)
from cryptography.hazmat.primitives.serialization import load_der_public_key

from . import sim


class Bad(Exception):
    def __init__(self, reason, rec=None):
        Exception.__init__(self, reason, rec)
        self.reason = reason
        self.rec = rec


class Unknown(Exception):
    pass


B64URL = re.compile(r'\A[A-Za-z0-9_-]*\Z')
B64 = re.compile(r'\A(?:[A-Za-z0-9+/]{4})*(?:[A-Za-z0-9+/]{2}==|'
        r'[A-Za-z0-9+/]{3}=)?\Z')
SUM = re.compile(r'\A-?([1-9][0-9]+|[0-9]),[0-9][0-9]\Z')
TS = re.compile(r'\A(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)\Z', re.ASCII)
ZDA = re.compile(r'\A(?:[A-Z][A-Z][1-9][0-9]*|AT0)\Z')


def dec64u(s):
    """ canonical unpadded base64url or Bad / Unknown """
    if not s.isascii() or not B64URL.match(s) or len(s) % 4 == 1:
        if s.isascii() and B64URL.match(s.rstrip('=\n')):
            raise Unknown('padding')
        raise Bad('malformed')
    b = sim.unb64u(s)
    if sim.b64u(b) != s:
        raise Unknown('non-canonical base64url')
    return b


def dec64(s):
    if not s.isascii():
        raise Bad('malformed')
    if not B64.match(s):
        if re.match(r'\A[A-Za-z0-9+/]*=*\n?\Z', s):
            raise Unknown('odd base64')
        raise Bad('malformed')
    b = base64.b64decode(s)
    if sim.b64(b) != s:
        raise Unknown('non-canonical base64')
    return b


ALNUM = re.compile(r'\A[0-9A-Za-z]+\Z')


def serial_type(s):
    """ 'open', 'closed' or Bad """
    if not s.isascii():
        raise Unknown('non-ASCII serial')
    if re.match(r'\A-?[0-9a-fA-F]+\Z', s):
        return 'open'
    parts = s.split('-')
    if len(parts) <= 2 and (len(parts) == 1 or ALNUM.match(parts[1])):
        p = parts[0]
        if re.match(r'\AS:[0-9]{9}\Z', p) or re.match(r'\AG:[0-9]{13}\Z', p) \
                or re.match(r'\AU:[0-9A-Z]{1,14}\Z', p):
            return 'closed'
    if re.match(r'\A[-+ \t\n\r\f\v0-9a-fA-FxX_]*\Z', s) or s.startswith('-'):
        raise Unknown('odd serial')
    if len(parts) == 2 and re.match(r'\A[-+0-9a-fA-F_x]*\Z', parts[0]):
        raise Unknown('odd serial')
    raise Bad('serial')


class Rec(object):
    """ one receipt, strictly parsed from its JWS """
    def __init__(self, j):
        if not isinstance(j, str):
            raise Bad('malformed')
        segs = j.split('.')
        if len(segs) != 3:
            raise Bad('malformed')
        try:
            header = dec64u(segs[0]).decode('utf-8')
            pl = dec64u(segs[1]).decode('utf-8')
        except UnicodeDecodeError:
            raise Bad('malformed')
        self.sig = dec64u(segs[2])
        self.signing_input = (segs[0] + '.' + segs[1]).encode('ascii')
        f = pl.split('_')
        if len(f) != 13 or f[0] != '':
            raise Bad('malformed')
        az = f[1].split('-')
        if len(az) != 2:
            raise Bad('malformed')
        if az[0] != 'R1':
            if re.match(r'\AR[1-9]\d*\Z', az[0]):
                raise Bad('algorithm')
            if az[0].endswith('\n') or not az[0].isascii():
                raise Unknown('algorithm')
            raise Bad('malformed')
        if header != sim.HEADER:
            raise Bad('alg-mismatch')
        (self.zda, self.reg, self.id, self.ts) = (az[1], f[2], f[3], f[4])
        if not self.id or not self.reg:
            raise Bad('malformed')
        if not ZDA.match(self.zda):
            if ZDA.match(self.zda.rstrip('\n')) or not self.zda.isascii():
                raise Unknown('zda')
            raise Bad('malformed')
        m = TS.match(self.ts)
        if not m:
            if re.match(r'\A\s*\d{1,4}-[\d ]\d?-[\d ]\d?[Tt]\d\d?:\d\d?:\d\d?\s*\Z',
                    self.ts):
                raise Unknown('timestamp')
            raise Bad('malformed')
        try:
            self.dt = datetime.datetime(*[int(x) for x in m.groups()])
        except ValueError:
            if m.group(6) in ('60', '61'):
                raise Unknown('leap second')
            raise Bad('malformed')
        self.cents = 0
        self.null = True
        for s in f[5:10]:
            if not SUM.match(s):
                if not s.isascii() or s.endswith('\n'):
                    raise Unknown('sum')
                raise Bad('malformed')
            c = int(s.replace(',', ''))
            self.cents += c
            self.null = self.null and c == 0
        self.enc = dec64(f[10])
        if not self.enc:
            raise Bad('malformed')
        self.dummy = self.enc == b'TRA'
        self.rev = self.enc == b'STO'
        self.serial = f[11]
        self.chain = f[12]
        if len(dec64(self.chain)) != 8:
            raise Bad('malformed')
        if not (5 <= len(self.enc) <= 16) and not self.dummy and not self.rev:
            raise Bad('malformed')
        if not self.serial:
            raise Bad('malformed')
        st = serial_type(self.serial)
        if (st == 'closed') != (self.zda == 'AT0'):
            raise Bad('zda')
        self.closed = st == 'closed'
        self.broken = self.sig == sim.BROKEN_SIG
        self.std = not self.dummy and not self.rev


def parse_rec(j):
    try:
        return Rec(j)
    except Bad as e:
        raise Bad('parse:' + e.reason, j)


# ------------------------------------------------------------ certificates

def load_cert(body):
    if not isinstance(body, str):
        raise Bad('cert-malformed')
    try:
        return x509.load_der_x509_certificate(base64.b64decode(body),
                default_backend())
    except Exception:
        raise Bad('cert-malformed')


def cert_signed_by(cert, issuer):
    pk = issuer.public_key()
    try:
        if isinstance(pk, ec.EllipticCurvePublicKey):
            pk.verify(cert.signature, cert.tbs_certificate_bytes,
                    ec.ECDSA(cert.signature_hash_algorithm))
        elif isinstance(pk, rsa.RSAPublicKey):
            pk.verify(cert.signature, cert.tbs_certificate_bytes,
                    padding.PKCS1v15(), cert.signature_hash_algorithm)
        else:
            return False
    except InvalidSignature:
        return False
    return True


def es256_ok(pk, sig, data):
    if not isinstance(pk, ec.EllipticCurvePublicKey):
        return False
    if len(sig) != 64 or pk.curve.name != 'secp256r1':
        return False
    try:
        pk.verify(encode_dss_signature(int.from_bytes(sig[:32], 'big'),
            int.from_bytes(sig[32:], 'big')), data, ec.ECDSA(hashes.SHA256()))
    except InvalidSignature:
        return False
    return True


class RefKeyStore(object):
    """ a (valid) key store: id -> (public key, certificate or None) """
    def __init__(self, js):
        self.m = {}
        for kid, v in js['certificateOrPublicKeyMap'].items():
            raw = v['signatureCertificateOrPublicKey']
            if v['signatureDeviceType'] == 'CERTIFICATE':
                c = load_cert(raw)
                self.m[serial_ids(kid)[0]] = (c.public_key(), c)
            else:
                self.m[kid] = (load_der_public_key(base64.b64decode(raw),
                    default_backend()), None)

    def key(self, kid):
        return self.m.get(kid, (None, None))[0]

    def cert(self, kid):
        return self.m.get(kid, (None, None))[1]


def serial_ids(s):
    """ the numbers a serial can stand for: hexadecimal, then decimal """
    s = s[1:] if s.startswith('-') else s
    out = []
    if re.match(r'\A[0-9a-fA-F]+\Z', s):
        out.append('%x' % int(s, 16))
    if re.match(r'\A[0-9]+\Z', s):
        out.append('%x' % int(s))
    return out


def check_trust(cert, chain, ks):
    cur = cert
    for nxt in list(chain) + [None]:
        known = ks.cert(sim.key_id(cur.serial_number))
        if known is not None:
            if known.fingerprint(hashes.SHA256()) != cur.fingerprint(
                    hashes.SHA256()):
                raise Bad('collision')
            return
        if nxt is None:
            raise Bad('untrusted')
        if not cert_signed_by(cur, nxt):
            raise Bad('chain-broken')
        cur = nxt


def pick_key(rec, cert, ks):
    """ the key to verify a receipt with (cert: group certificate or None) """
    if rec.closed:
        if cert is not None:
            return cert.public_key()
        return ks.key(rec.serial)
    ids = serial_ids(rec.serial)
    if cert is not None:
        if sim.key_id(cert.serial_number) not in ids:
            raise Bad('serial-mismatch', rec.id)
        return cert.public_key()
    for i in ids:
        k = ks.key(i)
        if k is not None:
            return k
    return None


# ------------------------------------------------------------------- state

def new_reg():
    return {'startReceiptJWS': None, 'lastReceiptJWS': None,
            'lastTurnoverCounter': 0, 'needRestoreReceipt': False,
            'chainNextTo': None}


def natural_key(s):
    return [int(x) if i % 2 else x.lower()
            for i, x in enumerate(re.split('([0-9]+)', s))]


class Natural(object):
    """ IDs must be strictly increasing in natural sort order """
    def __init__(self):
        self.lo = self.hi = None

    def __contains__(self, x):
        return self.hi is not None and not natural_key(self.hi) < natural_key(x)

    def add(self, x):
        self.hi = x
        if self.lo is None:
            self.lo = x


class RefState(object):
    def __init__(self, natural=False):
        self.regs = []
        self.used = Natural() if natural else set()

    def copy(self):
        return copy.deepcopy(self)


def norm_state(js):
    """ JSON written by ClusterState.writeStateToJson(), order normalised """
    u = js['usedReceiptIds']
    data = u['backendData']
    if isinstance(data, list):
        data = sorted(data)
    return {'cashRegisters': js['cashRegisters'],
            'usedReceiptIds': {'backendType': u['backendType'],
                'backendData': data}}


def ref_norm(state):
    if isinstance(state.used, Natural):
        return {'cashRegisters': state.regs, 'usedReceiptIds': {
            'backendType': 'USED_RECEIPT_IDS_SORTED_NATURAL',
            'backendData': {'minId': state.used.lo, 'maxId': state.used.hi}}}
    return {'cashRegisters': state.regs,
            'usedReceiptIds': {'backendType': 'USED_RECEIPT_IDS_UNIQUE',
                'backendData': sorted(state.used)}}


def verify_recs(recs, cert, ks, key, prev_start, reg, used):
    """ one group; modifies reg and used """
    prev = parse_rec(reg['lastReceiptJWS']) if reg['lastReceiptJWS'] else None
    prev_jws = reg['lastReceiptJWS']
    for j in recs:
        r = parse_rec(j)
        pk = pick_key(r, cert, ks)
        if not r.broken:
            if pk is None:
                raise Bad('no-key', r.id)
            if not es256_ok(pk, r.sig, r.signing_input):
                raise Bad('signature', r.id)
        first = prev is None
        restores = not r.broken and r.null and r.std
        if first:
            if r.broken:
                raise Bad('start-unsigned', r.id)
            reg['needRestoreReceipt'] = False
            if not r.null:
                raise Bad('start-nonzero', r.id)
            if not r.std:
                raise Bad('start-type', r.id)
            if prev_start:
                p = parse_rec(prev_start)
                if not r.closed or not p.closed:
                    raise Bad('cluster-open', r.id)
                prev, prev_jws = p, prev_start
            reg['startReceiptJWS'] = j
        elif restores:
            reg['needRestoreReceipt'] = False
        else:
            if reg['needRestoreReceipt']:
                raise Bad('no-restore', r.id)
            if not r.broken and prev.broken:
                reg['needRestoreReceipt'] = True

        if r.id in used:
            raise Bad('duplicate', r.id)
        if prev is not None:
            if r.reg != prev.reg:
                raise Bad('register-id', r.id)
            if r.closed != prev.closed:
                raise Bad('system-type', r.id)
            if r.dt < prev.dt:
                raise Bad('date', r.id)
        used.add(r.id)

        want = sim.chain_value(prev_jws if prev_jws else r.reg)
        if reg['chainNextTo']:
            want = reg['chainNextTo']
            reg['chainNextTo'] = None
        if r.chain != want:
            if first and prev_start:
                raise Bad('start-chain-cluster', r.id)
            raise Bad('start-chain' if first else 'chain', r.id)

        if key is not None and not r.dummy:
            if len(key) != 32:
                raise Bad('key')
            reg['lastTurnoverCounter'] += r.cents
            if r.std and sim.dec_counter(key, r.reg, r.id, r.enc) \
                    != reg['lastTurnoverCounter']:
                raise Bad('turnover', r.id)
        prev, prev_jws = r, j
    reg['lastReceiptJWS'] = prev_jws


def groups_of(dep):
    """ [(receipts, cert, chain)] or Bad """
    if not isinstance(dep, dict) or not isinstance(
            dep.get('Belege-Gruppe'), list):
        raise Bad('dep')
    out = []
    for g in dep['Belege-Gruppe']:
        if not isinstance(g, dict):
            raise Bad('dep')
        if not {'Signaturzertifikat', 'Zertifizierungsstellen',
                'Belege-kompakt'} <= set(g):
            raise Bad('dep')
        c, ch, rs = (g['Signaturzertifikat'], g['Zertifizierungsstellen'],
                g['Belege-kompakt'])
        if not isinstance(c, str) or not isinstance(ch, list) \
                or not isinstance(rs, list) \
                or not all(isinstance(r, str) for r in rs):
            raise Bad('dep')
        cert = load_cert(c) if c else None
        chain = [load_cert(x) for x in ch]
        if rs:
            out.append((rs, cert, chain))
    if not out:
        raise Bad('dep')
    return out


def ref_verify(dep, ksjson, key, state=None, idx=None):
    st = state.copy() if state is not None else RefState()
    try:
        ks = ksjson if isinstance(ksjson, RefKeyStore) else RefKeyStore(ksjson)
        if idx is None:
            idx = len(st.regs)
        if idx < 0 or idx > len(st.regs):
            raise Bad('index')
        if idx == len(st.regs):
            if st.regs and not st.regs[-1]['startReceiptJWS']:
                raise Bad('no-start')
            st.regs.append(new_reg())
        prev_start = st.regs[idx - 1]['startReceiptJWS'] if idx else None
        groups = groups_of(dep)
        if len(groups) > 1 and any(c is None for _, c, _ in groups):
            raise Bad('no-cert')
        for rs, cert, chain in groups:
            if cert is not None:
                check_trust(cert, chain, ks)
        for rs, cert, chain in groups:
            verify_recs(rs, cert, ks, key, prev_start, st.regs[idx], st.used)
    except Bad as e:
        return ('bad', e.reason, e.rec)
    except Unknown as e:
        return ('?', str(e))
    return ('ok', st)


# reference reason -> name of the exception librksv documents for it
EXC = {
    'parse:malformed': 'MalformedReceiptException',
    'parse:algorithm': 'UnknownAlgorithmException',
    'parse:alg-mismatch': 'AlgorithmMismatchException',
    'parse:serial': 'CertSerialInvalidException',
    'parse:zda': 'InvalidCertificateProviderException',
    'cert-malformed': 'MalformedCertificateException',
    'collision': 'CertificateSerialCollisionException',
    'untrusted': 'UntrustedCertificateException',
    'chain-broken': 'CertificateChainBrokenException',
    'serial-mismatch': 'CertSerialMismatchException',
    'no-key': 'NoPublicKeyException',
    'signature': 'InvalidSignatureException',
    'start-unsigned': 'SignatureSystemFailedOnInitialReceiptException',
    'start-nonzero': 'NonzeroTurnoverOnInitialReceiptException',
    'start-type': 'NonstandardTypeOnInitialReceiptException',
    'cluster-open': 'ClusterInOpenSystemException',
    'no-restore': 'NoRestoreReceiptAfterSignatureSystemFailureException',
    'duplicate': 'DuplicateReceiptIdException',
    'register-id': 'ChangingRegisterIdException',
    'system-type': 'ChangingSystemTypeException',
    'date': 'DecreasingDateException',
    'start-chain': 'InvalidChainingOnInitialReceiptException',
    'start-chain-cluster': 'InvalidChainingOnClusterInitialReceiptException',
    'chain': 'ChainingException',
    'turnover': 'InvalidTurnoverCounterException',
    'no-cert': 'NoCertificateGivenException',
    'index': 'InvalidCashRegisterIndexException',
    'no-start': 'NoStartReceiptForLastCashRegisterException',
    'key': 'InvalidKeyException',
}
