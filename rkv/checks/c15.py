import base64
import re

from .. import sim
from ..paths import receipt
from ..ref import Rec, Bad, Unknown, EXC, serial_type
from ..runner import Sub, expect, expect_eq
from ..strategies import (world, any_text, ZDAS, KIDS, SERIALS, FMTS, turnover,
        TEXT_POOL, scalar, json_value)
from .c14 import FROM, TO

ID = 'C15'
QUICK = 3
TITLE = 'Malformed receipts are always reported, well-formed never'
RULE = ('serial: an edited certificate serial; fields: one field of a well-formed receipt is replaced; text: a '
        'receipt in some format is edited as text, or anything at all; a case '
        'counts if the reference grammar has a verdict; distinct by text')
ASSUMPTIONS = ['left open: surplus or missing zero padding in timestamps, '
        'non-canonical base64/base32, non-ASCII digits and line ends at the '
        'end of fields, serials like "0x12" or "+12"']

DOCUMENTED = {'MalformedReceiptException', 'UnknownAlgorithmException',
        'AlgorithmMismatchException', 'CertSerialInvalidException',
        'InvalidCertificateProviderException'}

GOOD = {
    0: ['R1'],
    1: ZDAS + ['AT0', 'AT1234567890', 'ZZ9'],
    4: ['2017-02-28T00:00:00', '2016-02-29T23:59:59', '0001-01-01T00:00:00',
        '9999-12-31T23:59:59', '2000-02-29T12:00:01'],
    5: ['0,00', '-0,00', '1,00', '-1,00', '0,01', '-0,01', '10,00', '9,99',
        '100000000000000000000,00', '123456,78', '-92233720368547758,08'],
    10: [sim.b64(b'TRA'), sim.b64(b'STO'), sim.b64(b'\0' * 5),
        sim.b64(b'\xff' * 16), sim.b64(b'12345678'), sim.b64(b'\0' * 8)],
    11: KIDS + ['1', 'a', 'A', 'ff', '-1', '00', '0', '1234567890abcdefABCDEF',
        'G:0000000000000', 'S:000000000-a', 'U:0-0', 'U:ABCDEFGHIJKLMN',
        'U:A-ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'],
    12: [sim.b64(b'\0' * 8), sim.b64(b'12345678'), sim.b64(b'\xff' * 8)],
}
ODD = {
    0: ['', 'R2', 'R10', 'R0', 'R01', 'R', 'r1', '1', 'R1 ', ' R1', 'R1x',
        'RR1', 'R-1', 'R1-', 'X1', 'R1\n', 'R11', 'R9999999999'],
    1: ['', 'AT', 'AT01', 'at1', 'A1', 'ATT1', 'AT-1', 'AT0', 'AT00', 'DE0',
        'AT1 ', '1AT', 'AT1\n', 'AT1a', 'ÄT1', 'AT1-1'],
    2: [''], 3: [''],
    4: ['', '2017-02-29T00:00:00', '2017-13-01T00:00:00', '2017-00-01T00:00:00',
        '2017-01-00T00:00:00', '2017-01-32T00:00:00', '2017-04-31T00:00:00',
        '2017-01-01T24:00:00', '2017-01-01T00:60:00', '2017-01-01 00:00:00',
        '2017-01-01T00:00', '2017-01-01', '2017-01-01T00:00:00Z',
        '2017-01-01T00:00:00.000', '2017-01-01T00:00:00+01:00',
        '20170101T000000', '0000-01-01T00:00:00', '10000-01-01T00:00:00',
        '1900-02-29T00:00:00', '2100-02-29T00:00:00', 'x', '01.01.2017',
        '2017-01-01t00:00:00', '-2017-01-01T00:00:00', '2017/01/01T00:00:00'],
    5: ['', '0', '0,0', '0,000', '0.00', '00,00', '01,00', '+1,00', '-', ',00',
        '-,00', '1,0', '1,a0', '--1,00', '1 000,00', '1.000,00', '1,000,00',
        ' 1,00', '1,00 ', '1e5,00', 'NaN', 'inf', 'Infinity', '-01,00',
        '0x1,00', '1,00€', '0,00\n', '٣,00', '1,-0', '1,00-', '1_0,00'],
    10: ['', '=', '==', 'AAAA=', 'AA', 'A', 'AAA', '????', sim.b64(b'1234'),
        sim.b64(b'x' * 17), sim.b64(b'TR'), sim.b64(b'tra'), sim.b64(b'ST0'),
        sim.b64(b'TRAA'), sim.b64(b'TRA '), sim.b64(b'\0' * 3),
        sim.b64(b'S'), 'AAAAAAA-', ' AAAAAAAA', 'AAAA AAAA', 'ÄAAA',
        sim.b64(b'STO' * 6), 'TRA', 'STO'],
    11: ['', 'g', 'xyz', '-', '--1', '1-', '1-2', '-1-', 'S:', 'S:12345678',
        'S:1234567890', 'S:12345678a', 's:123456789', 'U:', 'u:ATU1',
        'U:atu123', 'U:ABCDEFGHIJKLMNO', 'U:AB CD', 'G:123456789012',
        'G:12345678901234', 'G:123456789012x', 'X:123', 'U:A-', 'U:A-ß!',
        'U:A-1-2', 'U:A-_', 'U:-1', 'S:123456789-', ':', 'U', ' ', '0x12',
        '+1', '1 ', ' 1', '1.0', 'U:Ä', '--', 'S:123456789-+'],
    12: ['', 'AAAA', sim.b64(b'\0' * 7), sim.b64(b'\0' * 9), sim.b64(b''),
        sim.b64(b'\0' * 16), '????', 'AAAAAAAAAAA', 'AAAAAAAAAA-=',
        sim.b64(b'\0' * 32)],
}
HEADERS = ['', '{"alg":"ES256"}', '{"alg":"none"}', '{"alg": "ES256"}',
        '{"alg":"HS256"}', '{"alg":"ES256","typ":"JWT"}', '{}', 'x',
        '{"alg":"ES384"}', '{"alg":"ES256"} ']


def base_fields(d):
    cl = d.bool()
    return ['R1', 'AT0' if cl else d.choice(ZDAS), d.choice(TEXT_POOL),
        d.choice(TEXT_POOL), d.choice(GOOD[4])] + [d.choice(GOOD[5])
            for _ in range(5)] + [d.choice(GOOD[10]),
        d.choice([x for x in GOOD[11] if (':' in x) == cl]),
        d.choice(GOOD[12])]


def text_of(f, sig, header=sim.HEADER):
    """ fields -> JWS """
    pl = '_' + f[0] + '-' + f[1] + '_' + '_'.join(f[2:])
    return '.'.join([sim.b64u(header.encode('utf-8')),
        sim.b64u(pl.encode('utf-8')), sim.b64u(sig)])


def gen_fields(d):
    f = base_fields(d)
    i = d.int(0, 13)
    header = sim.HEADER
    if i == 13:
        header = d.choice(HEADERS)
    else:
        k = min(i, 5) if i < 10 and i > 4 else i
        pool = ODD[k] + GOOD.get(k, TEXT_POOL)
        f[i] = d.choice(pool) if d.bool(3, 4) else mutate(d, f[i])
        f[i] = f[i].replace('_', '-').replace('\ud800', '-')
    return {'f': f, 'i': i, 'header': header,
            'sig': d.choice([sim.BROKEN_SIG.hex(), '00' * 64, '', 'ff'])}


def ref(j):
    try:
        return ('ok', Rec(j))
    except Bad as e:
        return ('bad', e.reason)
    except Unknown as e:
        return ('?', str(e))


def parse(fmt, s):
    """ -> ('ok', receipt) | ('bad', class name) """
    try:
        r, alg = FROM[fmt](s)
    except receipt.ReceiptException as e:
        str(e)
        expect(type(e).__name__ in DOCUMENTED, 'undocumented error %s',
                type(e).__name__)
        return ('bad', type(e).__name__)
    except Exception as e:
        expect(False, '%r for %r', e, s)
    return ('ok', (r, alg))


def check_ok(r, alg, rr):
    expect_eq((alg, r.zda, r.registerId, r.receiptId, r.dateTimeStr, r.dateTime,
        r.encTurnoverCounter, r.certSerial, r.previousChain), ('R1', rr.zda,
            rr.reg, rr.id, rr.ts, rr.dt, sim.b64(rr.enc), rr.serial, rr.chain),
        'parsed fields')
    expect_eq((r.turnover(), bool(r.isNull()), r.isDummy(), r.isReversal(),
        r.isSignedBroken()), (rr.cents, rr.null, rr.dummy, rr.rev, rr.broken),
        'meaning')


def run_fields(case, ctx):
    sig = bytes.fromhex(case['sig'])
    j = text_of(case['f'], sig, case['header'])
    r = ref(j)
    ctx.label('field%d' % case['i'])
    got = parse('jws', j)
    if r[0] == '?':
        ctx.label('open question')
        ctx.trivial()
        return
    if r[0] == 'ok':
        ctx.label('ok')
        expect(got[0] == 'ok', 'well-formed receipt refused: %s %r', got[1],
                case['f'])
        check_ok(*(got[1] + (r[1],)))
        expect_eq(got[1][0].toJWSString('R1'), j, 'written back')
    else:
        ctx.label(r[1])
        expect(got[0] == 'bad', 'malformed receipt accepted (%s): %r', r[1],
                case['f'])
        # an empty signature or the like is a second defect; here none is
        expect_eq(got[1], EXC['parse:' + r[1]], 'error for %r' % (case['f'],))
    if case['header'] != sim.HEADER:
        return
    # the same in the other formats
    for fmt in ('qr', 'ocr', 'csv'):
        if fmt == 'ocr' and not (r[0] == 'ok' or case['i'] not in (10, 12)):
            continue
        if fmt == 'csv' and any(';' in x or x != x.strip() for x in case['f']):
            continue
        s = {'qr': sim.qr, 'ocr': sim.ocr, 'csv': sim.csv}[fmt](j)
        g = parse(fmt, s)
        expect_eq(g[0], got[0], '%s form of %r' % (fmt, case['f']))
        if g[0] == 'ok':
            expect_eq(g[1][0].toJWSString('R1'), j, '%s -> jws' % fmt)
        else:
            expect_eq(g[1], got[1], 'error for %s form' % fmt)


# ------------------------------------------------------------------- text

CH = list('ABCabc019_-.;=+/,:T \n\0') + ['é', '\ud800', '\U0001f4b6', '٣']


def mutate(d, s):
    for _ in range(d.choice([1, 1, 1, 2, 3])):
        k = d.int(0, 6)
        p = d.int(0, len(s))
        if k == 0:
            s = s[:p] + d.choice(CH) + s[p:]
        elif k == 1:
            s = s[:p] + s[p + 1:]
        elif k == 2:
            s = s[:p] + d.choice(CH) + s[p + 1:]
        elif k == 3:
            s = s[:p]
        elif k == 4:
            q = d.int(0, len(s))
            a, b = min(p, q), max(p, q)
            s = s[:b] + s[a:b] + s[b:]
        elif k == 5:
            q = d.int(0, len(s))
            a, b = min(p, q), max(p, q)
            s = s[:a] + s[b:]
        else:
            s = s[:p] + s[p:p + 1].swapcase() + s[p + 1:]
    return s


SEP = {'jws': '.', 'qr': '_', 'ocr': '_', 'csv': ';'}


def gen_text(d):
    fmt = d.choice(['jws', 'jws', 'qr', 'ocr', 'csv'])
    k = d.int(0, 9)
    if k == 0:
        return {'fmt': fmt, 's': scalar(d)
                if d.bool() else json_value(d)}
    if k == 1:
        return {'fmt': fmt, 's': d.text(0, 20, pool=CH)}
    f = base_fields(d)
    sig = d.choice([sim.BROKEN_SIG, b'\0' * 64, b'', b'\xff' * 63, b'a'])
    j = text_of(f, sig)
    if k in (2, 3, 4) and fmt == 'jws':
        # edit inside the encoded payload
        h, p, s = j.split('.')
        pl = mutate(d, sim.unb64u(p).decode('utf-8')).encode('utf-8',
                'surrogatepass')
        if d.bool(1, 6):
            b = bytearray(pl or b'x')
            b[d.int(0, len(b) - 1)] = d.choice([0x80, 0xff, 0xc0, 0])
            pl = bytes(b)
        return {'fmt': fmt, 's': '.'.join([h, sim.b64u(pl), s])}
    s = {'jws': lambda x: x, 'qr': sim.qr, 'ocr': sim.ocr, 'csv': sim.csv}[
            fmt](j)
    if d.bool(1, 8):
        # separators of other formats
        for _ in range(d.int(1, 2)):
            p = d.int(0, len(s))
            s = s[:p] + d.choice(['_', ';', '.', '; ', ',']) + s[p
                    + d.int(0, 1):]
        return {'fmt': fmt, 's': s}
    if k <= 5:
        # whole segments
        p = s.split(SEP[fmt])
        i = d.int(0, len(p) - 1)
        op = d.choice(['drop', 'dup', 'swap', 'empty', 'blank'])
        if op == 'drop':
            del p[i]
        elif op == 'dup':
            p.insert(i, p[i])
        elif op == 'swap':
            o = d.int(0, len(p) - 1)
            p[i], p[o] = p[o], p[i]
        elif op == 'empty':
            p[i] = ''
        else:
            p[i] = ' ' + p[i] + ' '
        return {'fmt': fmt, 's': SEP[fmt].join(p)}
    return {'fmt': fmt, 's': mutate(d, s)}


B32 = re.compile(r'\A(?:[A-Z2-7]{8})*(?:[A-Z2-7]{2}={6}|[A-Z2-7]{4}={4}|'
        r'[A-Z2-7]{5}={3}|[A-Z2-7]{7}=)?\Z')


def dec32(s):
    if not B32.match(s):
        if re.match(r'\A[A-Za-z0-9+/=\n]*\Z', s):
            raise Unknown('odd base32')
        raise Bad('malformed')
    b = base64.b32decode(s)
    if base64.b32encode(b).decode() != s:
        raise Unknown('non-canonical base32')
    return b


def ref_text(fmt, s):
    """ the reference grammar for all formats """
    from ..ref import dec64
    if not isinstance(s, str):
        return ('bad', 'malformed', None)
    try:
        s.encode('utf-8')
    except UnicodeEncodeError:
        return ('bad', 'malformed', None)
    try:
        if fmt == 'jws':
            return ('ok', Rec(s), s)
        if fmt == 'csv':
            f = s.split(';')
            if any(x != x.strip() for x in f):
                raise Unknown('blanks in CSV')
            if any('_' in x for x in f):
                raise Bad('malformed')
            f = [''] + f
        else:
            f = s.split('_')
        if len(f) != 14 or f[0]:
            raise Bad('malformed')
        if fmt == 'ocr':
            f[10] = sim.b64(dec32(f[10]))
            f[12] = sim.b64(dec32(f[12]))
            sig = dec32(f[13])
        else:
            sig = dec64(f[13])
        j = '.'.join([sim.b64u(sim.HEADER.encode()), sim.b64u('_'.join(
            f[:13]).encode('utf-8')), sim.b64u(sig)])
        return ('ok', Rec(j), j)
    except Bad as e:
        return ('bad', e.reason, None)
    except Unknown as e:
        return ('?', str(e), None)


def run_text(case, ctx):
    fmt, s = case['fmt'], case['s']
    want = ref_text(fmt, s)
    got = parse(fmt, s)
    ctx.label(fmt, '%s/%s' % (fmt, want[0]))
    if want[0] == '?':
        ctx.trivial()
    else:
        expect(got[0] == want[0], 'reference says %r, got %r for %r', want[:2],
                got, s)
    if got[0] == 'ok':
        r, alg = got[1]
        if want[0] == 'ok':
            check_ok(r, alg, want[1])
            expect_eq(r.toJWSString(alg), want[2], 'JWS form')
            expect_eq(TO[fmt](r, alg), s, 'written back')
        # whatever was accepted can be written and read again
        j = r.toJWSString(alg)
        again, a2 = FROM['jws'](j)
        expect_eq(again.toJWSString(a2), j, 'JWS read again')
        for o in ('qr', 'ocr'):
            TO[o](r, alg)
        r.turnover()
        r.isNull()


# -------------------------------------------------------------- constructor

def gen_init(d):
    f = base_fields(d)[1:]
    i = d.int(0, len(f) - 1)
    f[i] = scalar(d) if d.bool() else d.choice(['_', 'a_b', 'x', '',
        f[i] + '_', '_' + f[i], 'ab' * d.int(0, 40) + '_' + 'c' * d.int(0, 9)])
    return {'f': f, 'i': i}


def run_init(case, ctx):
    f = case['f']
    ctx.label('arg%d' % case['i'])
    try:
        r = receipt.Receipt(*f)
    except receipt.ReceiptException as e:
        str(e)
        expect(type(e).__name__ in DOCUMENTED, 'undocumented error %r', e)
        return
    expect(all(isinstance(x, str) for x in f), 'accepted %r', f)
    ctx.label('ok')
    if '_' in f[1] + f[2]:
        expect(False, 'accepted a field separator in %r', f)


# ------------------------------------------------------------------- serials

def gen_serial(d):
    s = d.choice([x for x in GOOD[11] if x] + ODD[11])
    for _ in range(d.choice([0, 0, 1, 1, 2])):
        p = d.int(0, len(s))
        k = d.int(0, 3)
        if k == 0:
            s = s[:p] + d.choice('0159aAfFgZ-:SUGé ') + s[p:]
        elif k == 1:
            s = s[:p] + s[p + 1:]
        elif k == 2:
            s = s[:p] + s[p:].swapcase()
        else:
            s = d.choice('SUG') + s[1:]
    return {'s': s}


def run_serial(case, ctx):
    """ the kind of a serial """
    s = case['s']
    T = receipt.CertSerialType
    got = T.getCertSerialType(s)
    expect(isinstance(got, T), 'no kind of serial: %r', got)
    try:
        kind = serial_type(s)
    except Bad:
        kind = 'bad'
    except Unknown:
        ctx.trivial()
        return
    if kind == 'open':
        want = T.SERIAL
    elif kind == 'bad':
        want = T.INVALID
    else:
        want = {'S': T.TAX, 'U': T.UID, 'G': T.GLN}[s[0]]
    ctx.label(want.name)
    expect_eq(got, want, 'kind of serial %r' % s)


SUBS = [Sub('serial', gen_serial, run_serial, 16000),
        Sub('fields', gen_fields, run_fields, 80000),
        Sub('text', gen_text, run_text, 160000),
        Sub('init', gen_init, run_init, 8000)]
