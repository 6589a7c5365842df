import base64
import datetime

from .. import sim
from ..paths import (algorithms, receipt, utils, verify, run_path, DEP)
from ..runner import Sub, expect, expect_eq
from ..strategies import MAXCNT, TEXT_POOL, any_text, world, path

from librksv import cashreg, sigsys

ID = 'C24'
QUICK = 4
TITLE = 'Turnover counter encryption is exactly the specified cipher'
RULE = ('a case counts if the counter is not zero (cipher) or the key or '
        'counter is refused (refused); distinct by all inputs')
ASSUMPTIONS = ['the AES block cipher of the cryptography package is right']

R1 = algorithms.ALGORITHMS['R1']


def ident(d):
    return d.choice(TEXT_POOL) if d.bool() else any_text(d, d.choice([8, 8,
        100]))


def gen(d):
    n = d.int(5, 16)
    lim = MAXCNT[n]
    k = d.int(0, 4)
    c = d.choice([0, 1, -1, lim, -lim - 1, lim - 1, -lim, 255, 256, -256,
        -255, 2 ** 31, 2 ** 32 - 1, -2 ** 31]) if k < 2 else \
        d.choice([1, -1]) * (1 << d.int(0, 8 * n - 2)) if k == 2 else \
        d.int(-lim - 1, lim)
    return {'n': n, 'c': c, 'reg': ident(d), 'rid': ident(d), 'key': d.bytes(32,
        32).hex() if d.bool(7, 8) else d.choice(['00' * 32, 'ff' * 32]),
        'reg2': ident(d), 'flip': d.int(0, 16 * 8 - 1),
        # ciphertexts that look like something else
        'pre': d.choice(['TRA', 'STO', 'TRASTO', '\0\0\0\0\0', 'VFJB'])
            if d.bool(1, 6) else ''}


def rec(reg, rid, enc):
    return receipt.Receipt('AT1', reg, rid, '2017-04-01T00:00:00', '0,00',
            '0,00', '0,00', '0,00', '0,00', sim.b64(enc), 'abc',
            sim.b64(b'x' * 8))


def run(case, ctx):
    n, c = case['n'], case['c']
    key = bytes.fromhex(case['key'])
    want = sim.enc_counter(key, case['reg'], case['rid'], c, n)
    pre = case.get('pre', '').encode()[:n]
    if pre:
        want = pre + want[len(pre):]
        c = sim.dec_counter(key, case['reg'], case['rid'], want)
        ctx.label('looks like ' + repr(pre))
    r = rec(case['reg'], case['rid'], want)
    expect(not r.isDummy() and not r.isReversal(), 'not a standard receipt')
    expect(R1.verifyKey(key), 'key refused')
    utils.raiseForKey(key, R1)
    got = R1.encryptTurnoverCounter(r, c, key, n)
    expect_eq(bytes(got).hex(), want.hex(), 'encrypted counter')
    expect_eq(R1.decryptTurnoverCounter(r, want, key), c, 'decrypted counter')
    expect_eq(r.decryptTurnoverCounter(key, R1), c, 'counter of the receipt')
    # every single bit changes the value as two's complement says
    b = case['flip'] % (8 * n)
    ct = bytearray(want)
    ct[b // 8] ^= 0x80 >> b % 8
    expect_eq(R1.decryptTurnoverCounter(r, bytes(ct), key), sim.dec_counter(key,
        case['reg'], case['rid'], bytes(ct)), 'value with a flipped bit')
    # other IDs, another key
    r2 = rec(case['reg2'], case['rid'], want)
    expect_eq(R1.decryptTurnoverCounter(r2, want, key), sim.dec_counter(key,
        case['reg2'], case['rid'], want), 'value for another register')
    k2 = bytes([key[0] ^ 1]) + key[1:]
    expect_eq(R1.decryptTurnoverCounter(r, want, k2), sim.dec_counter(k2,
        case['reg'], case['rid'], want), 'value with another key')
    # a key from a key store file
    js = {'base64AESKey': sim.b64(key)}
    expect_eq(utils.loadKeyFromJson(js), key, 'key read from JSON')
    expect_eq(utils.loadB64Key(sim.b64(key).encode()), key, 'key')
    expect(utils.loadKeyFromJson({}) is None, 'missing key')
    ctx.label('%d bytes' % n, 'negative' if c < 0 else 'positive')
    if not c:
        ctx.trivial()


KEYLEN = [0, 1, 16, 24, 31, 33, 48, 64]


def gen_refused(d):
    n = d.int(5, 16)
    lim = MAXCNT[n]
    what = d.choice(['key', 'key', 'counter', 'type', 'special', 'size'])
    return {'what': what, 'n': n, 'reg': ident(d), 'rid': ident(d), 'len':
            d.choice(KEYLEN), 'c': d.choice([lim + 1, -lim - 2, lim * 2 + 1,
                lim * 2 + 2, -2 * lim - 2, (1 << 128) + 5, -(1 << 127) - 1]),
            'kind': d.choice(['TRA', 'STO']), 'size': d.choice([-1, 0, 1, 4, 17,
                32]), 'w': world(d, max_recs=6), 'path': path(d, 6),
            'type': d.int(0, 4)}


def refused(fn, what, cls=Exception):
    try:
        v = fn()
    except cls:
        return
    expect(False, '%s: %r', what, v)


def run_refused(case, ctx):
    what, n = case['what'], case['n']
    ctx.label(what)
    good = sim.aes_key(1)
    t = datetime.datetime(2017, 4, 1)
    s = sigsys.SignatureSystemBroken('AT1', 'abc')
    r = rec(case['reg'], case['rid'], b'x' * n)
    if what in ('key', 'type'):
        key = [None, 'x' * 32, list(range(32)), 32, ''][case['type']] if \
                what == 'type' else b'k' * case['len']
        expect(not R1.verifyKey(key), 'key %r of the wrong kind taken', key)
        refused(lambda: utils.raiseForKey(key, R1), 'no error for key %r' %
                (key,), utils.InvalidKeyException)
        refused(lambda: r.decryptTurnoverCounter(key, R1), 'decrypted with '
                'key %r' % (key,), utils.InvalidKeyException)
        reg = cashreg.CashRegister(case['reg'], None, 5, key, n)
        refused(lambda: reg.receipt('R1', case['rid'], t, 0.0, 0.0, 0.0, 0.0,
            0.0, s), 'encrypted with key %r' % (key,),
            utils.InvalidKeyException)
        # the same for a whole DEP, if it has a counter at all
        if what == 'key' and case['len']:
            w = sim.World(case['w'])
            got = run_path(w.dep(), w.keystore(), key, case['path'])
            expect_eq((got[0], got[1]), ('bad', 'InvalidKeyException'),
                    'DEP verified with key %r' % (key,))
    elif what == 'counter':
        c = case['c']
        if -MAXCNT[n] - 1 <= c <= MAXCNT[n]:
            ctx.trivial()
            return
        refused(lambda: R1.encryptTurnoverCounter(r, c, good, n),
                'counter %d encrypted in %d bytes' % (c, n))
        reg = cashreg.CashRegister(case['reg'], None, c, good, n)
        refused(lambda: reg.receipt('R1', case['rid'], t, 0.0, 0.0, 0.0, 0.0,
            0.0, s), 'receipt with counter %d in %d bytes' % (c, n))
    elif what == 'special':
        r = rec(case['reg'], case['rid'], case['kind'].encode())
        refused(lambda: r.decryptTurnoverCounter(good, R1), 'decrypted a '
                'receipt without counter')
    else:
        refused(lambda: cashreg.CashRegister(case['reg'], None, 0, good,
            case['size']), 'register with a counter of %d bytes' %
            case['size'])


SUBS = [Sub('cipher', gen, run, 48000), Sub('refused', gen_refused,
    run_refused, 6000)]
