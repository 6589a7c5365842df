from .. import sim
from ..paths import run_path, DEP
from ..runner import Sub
from ..strategies import world, path, TEXT_POOL
from .common import compare

ID = 'C02'
TITLE = 'Any change to a signed receipt is detected'
RULE = ('a case counts if one receipt of an otherwise valid DEP was changed '
        'after signing (or signed by someone else) and the reference has a '
        'verdict; distinct by scenario and change')
ASSUMPTIONS = ['non-canonical encodings and the second valid ECDSA signature '
        '(r, n-s) are left open by the regulation and are skipped']

NAMES = ['alg', 'reg', 'rid', 'ts', 'a', 'b', 'c', 'd', 'e', 'enc', 'serial',
        'chain']


def other_value(d, i, old, w):
    """ a well-formed value for field i """
    if i == 0:
        a, z = old.split('-')
        return a + '-' + ('AT0' if z == 'AT0' else d.choice(['AT1', 'AT2',
            'AT7', 'DE1']))
    if i == 1:
        return d.choice([old + 'x', old.swapcase(), 'K', old + ' '])
    if i == 2:
        return d.choice([old + '0', '0' + old, 'zzz', old.swapcase()])
    if i == 3:
        y = old[:-1] + d.choice('0123456789')
        return y if d.bool() else old[:3] + d.choice('123456789') + old[4:]
    if i <= 8:
        c = int(old.replace(',', ''))
        return sim.money(d.choice([c + 1, c - 1, -c, c * 10, c + 100, 0,
            c + 10 ** 9]))
    if i == 9:
        raw = bytearray(sim.base64.b64decode(old))
        k = d.int(0, 3)
        if k == 0:
            return sim.b64(b'TRA')
        if k == 1:
            return sim.b64(b'STO')
        if k == 2 and len(raw) >= 5:
            return sim.b64(bytes(raw) + b'\0' if len(raw) < 16 else raw[:-1])
        raw[d.int(0, len(raw) - 1)] ^= 1 << d.int(0, 7)
        return sim.b64(bytes(raw))
    if i == 10:
        if old[1:2] == ':':
            return d.choice(['U:ZZZ', old + '-x' if '-' not in old else old[:-1],
                'S:111111111'])
        return d.choice(['0' + old if old[0] != '-' else '-0' + old[1:],
            old + '1', 'abc', '1'])
    raw = bytearray(sim.base64.b64decode(old))
    raw[d.int(0, 7)] ^= 1 << d.int(0, 7)
    return sim.b64(bytes(raw))


def gen(d, lo=1, hi=9):
    sp = world(d, min_recs=lo, max_recs=hi)
    n = len(sp['recs'])
    i = d.choice([0, n - 1, d.int(0, n - 1)])
    kind = d.choice(['field', 'field', 'field', 'fields', 'sigbit', 'siglen',
        'swapsig', 'key', 'othersig', 'header', 'empty', 'der', 'char',
        'payload'])
    w = sim.World(sp)
    j = w.jws[i]
    f = sim.fields(j)
    h, p, s = j.split('.')
    sig = bytearray(sim.unb64u(s))
    if kind in ('field', 'fields'):
        for _ in range(1 if kind == 'field' else d.int(2, 4)):
            k = d.int(0, 11)
            f[k] = other_value(d, k, f[k], w)
        j = h + '.' + sim.b64u(('_' + '_'.join(f)).encode('utf-8')) + '.' + s
    elif kind == 'sigbit':
        sig[d.int(0, len(sig) - 1)] ^= 1 << d.int(0, 7)
        j = h + '.' + p + '.' + sim.b64u(bytes(sig))
    elif kind == 'siglen':
        sig = d.choice([sig[:-1], sig + b'\0', sig[:32], sig[32:], b'\0' * 64,
            sig + sig, b'\0' + sig])
        j = h + '.' + p + '.' + sim.b64u(bytes(sig))
    elif kind == 'swapsig':
        j = h + '.' + p + '.' + sim.b64u(bytes(sig[32:] + sig[:32]))
    elif kind == 'key':
        # signed with a key nobody trusts
        j = sim.resign(f, 999 + d.int(0, 3))
    elif kind == 'othersig':
        j = h + '.' + p + '.' + w.jws[d.int(0, n - 1)].split('.')[2]
    elif kind == 'header':
        hd = d.choice(['{"alg":"none"}', '{"alg":"HS256"}', '{"alg": "ES256"}',
            '{"alg":"ES384"}', '{"alg":"ES256","typ":"JWT"}', '{}', '',
            '{"typ":"JWT","alg":"ES256"}', '{"alg":"es256"}', '[]', 'null',
            '{"alg":"RS256"}'])
        hh = sim.b64u(hd.encode())
        if d.bool():
            j = hh + '.' + p + '.' + s       # old signature
        elif d.bool():
            j = sim.resign(f, w.devs[w.recdev[i]].key, hd)
        else:
            # HMAC with the public key as secret, as in attacks on JWT
            m = sim.hmac.new(sim.pub_pem(w.devs[w.recdev[i]].key).encode(),
                    (hh + '.' + p).encode(), sim.hashlib.sha256).digest()
            j = hh + '.' + p + '.' + sim.b64u(m)
    elif kind == 'empty':
        j = h + '.' + p + '.'
    elif kind == 'der' and len(sig) == 64:
        r = sim.tlv(0x30, sim.der_int(int.from_bytes(sig[:32], 'big')),
                sim.der_int(int.from_bytes(sig[32:], 'big')))
        j = h + '.' + p + '.' + sim.b64u(r)
    elif kind == 'payload':
        # an entire signed payload replaced by another receipt's
        o = w.jws[d.int(0, n - 1)].split('.')
        j = h + '.' + o[1] + '.' + s
    else:
        k = d.int(0, len(j) - 1)
        c = d.choice('ABCabc019-_.=+/')
        j = j[:k] + c + j[k + 1:]
    return {'w': sp, 'i': i, 'kind': kind, 'jws': j, 'key': d.bool(),
            'path': path(d, n), 'warm': d.bool(1, 3)}


def run(case, ctx):
    w = sim.World(case['w'])
    i = case['i']
    if case.get('warm'):
        # the intact DEP was verified before
        run_path(w.dep(), w.keystore(trust='all'), None, DEP)
    if w.jws[i] == case['jws']:
        ctx.trivial()
    w.jws[i] = case['jws']
    ctx.label(case['kind'], 'last' if i == len(w.jws) - 1 else 'inner',
            'closed' if w.closed else 'open')
    compare(ctx, w.dep(), w.keystore(trust='all'), w.aes if case['key']
            else None, case['path'])


SUBS = [Sub('tamper', gen, run, 9000),
        Sub('long', lambda d: gen(d, 60, 200), run, 40)]
