from .. import sim
from ..paths import run_path
from ..runner import Sub, expect_eq
from ..strategies import path, world, KIDS
from .common import compare

ID = 'C13'
TITLE = 'A receipt is verified with exactly the key its serial denotes'
RULE = ('a case counts if the key store holds at least two entries, or an '
        'entry whose ID is not spelled like the serial, or the group has a '
        'certificate (keys); the DEP has at least two groups (mixed); distinct '
        'by serials, key store and grouping')

SIGN, OTHER = 41, 42
NUMS = [0, 1, 9, 10, 12, 16, 255, 0x10, 0x12, 0x99, 0x100, 0x1234567890, 0xabc,
        0xabcdef, 0x12345e7, 10 ** 10, 0x10000000000, 99999999999999999999,
        2 ** 128 + 1, 0x10e5]


def any_key(d, right=1):
    # sometimes one that can not have made any signature of a receipt
    return d.weighted(8 * right, SIGN, 8, OTHER, *sum([[1, k] for k in
        sim.WRONG_KEYS], []))


def issuer(k):
    return OTHER if k in sim.OTHER_KINDS else k


def spell(d, s):
    """ another spelling of a serial """
    neg = s.startswith('-')
    s = s.lstrip('-')
    k = d.int(0, 4)
    if k == 1:
        s = s.upper()
    elif k == 2:
        s = '0' * d.int(1, 3) + s
    elif k == 3:
        s = ''.join(c.upper() if d.bool() else c for c in s)
    return ('-' if neg != d.bool(1, 4) else '') + s


def gen_open(d):
    n = d.choice(NUMS) if d.bool(3, 4) else d.int(0, 10 ** d.int(1, 40))
    base = '%x' % n if d.bool() else '%d' % n
    s = spell(d, base)
    h = int(base, 16)
    cand = [h, n, h + 1, h * 16, h >> 4, n + 1, int('1' + base, 16)]
    try:
        cand.append(int(base))
    except ValueError:
        pass
    store = []
    for _ in range(d.choice([1, 1, 2, 2, 3, 4])):
        c = d.choice(cand[:2] + cand[-1:] * 2 + cand)
        kid = d.choice(['%x', '%x', '%x', '%X', '%d', '0%x']) % c
        kind = d.choice(['cert', 'cert', 'pub', 'misfiled'])
        if kind == 'pub' and d.bool(1, 4):
            kid = d.choice(['-' + kid, s, kid + ' ', 'U:' + kid, ''])
        store.append([kid, kind, c, any_key(d)])
    grp = None
    if d.bool(1, 3):
        c = d.choice(cand)
        grp = [c if d.bool(3, 4) else -c, any_key(d, 2)]
    return {'closed': False, 'serial': s, 'store': store, 'group': grp,
            'n': d.int(1, 3), 'path': path(d, 3, False, ['dep', 'dict', 'file'])}


def gen_closed(d):
    s = d.choice(KIDS)
    near = [s, s, s.lower(), s + '0', s[:-1], s[2:], s.split('-')[0],
            s + '-1', s[:2] + '0' + s[2:], s.replace(':', ';'),
            s.replace('U:', 'S:'), ' ' + s, s.swapcase(), d.choice(KIDS)]
    store = []
    for _ in range(d.choice([1, 2, 2, 3, 4])):
        store.append([d.choice(near), 'pub', 0, any_key(d)])
    grp = None
    if d.bool(1, 4):
        grp = [d.choice(NUMS), any_key(d, 2)]
    return {'closed': True, 'serial': s, 'store': store, 'group': grp,
            'n': d.int(1, 3), 'path': path(d, 3, False, ['dep', 'dict', 'file'])}


def gen(d):
    c = gen_closed(d) if d.bool(1, 3) else gen_open(d)
    # later receipts: amount, kind, marked as not signed
    c['later'] = [d.choice([[0, 'S', 0], [0, 'S', 0], [100, 'S', 0], [100, 'D',
        0], [100, 'R', 0], [100, 'S', 1], [100, 'D', 1], [-100, 'R', 1], [0,
            'S', 1]]) + [d.weighted(4, None, 1, 'next', 1, 'near')]
            for _ in range(c['n'] - 1)]
    return c


def run(case, ctx):
    rec = []
    prev = 'R'
    total = 0
    for i in range(case['n']):
        c, kind, broken, other = case['later'][i - 1] if i and case.get('later') \
                else (0, 'S', 0, None)
        serial = case['serial']
        if other and case['closed']:
            serial = case['store'][-1][0] if other == 'next' and len(
                    case['store'][-1][0]) > 10 else serial + '2'
        elif other:
            # the one of another entry, or of none
            serial = '%x' % (case['store'][-1][2] + (other == 'near'))
        if kind != 'D':
            total += c
        enc = {'D': b'TRA', 'R': b'STO'}.get(kind) or sim.enc_counter(
                sim.aes_key(1), 'R', str(i), total, 8)
        pl = sim.payload('R1', 'AT0' if case['closed'] else 'AT1', 'R', str(i),
                sim.stamp(10 ** 9), [sim.money(c)] + sim.NULL5[1:],
                sim.b64(enc), serial, sim.chain_value(prev))
        prev = sim.jws(pl, None if broken else SIGN)
        if broken:
            ctx.label('unsigned', kind)
        rec.append(prev)
    m = {}
    taken = {}
    for kid, kind, num, k in case['store']:
        # no two entries for the same number: which one counts is not specified
        if kind == 'pub':
            slot = kid
            ent = ('PUBLIC_KEY', sim.pem_body(sim.pub_pem(k)))
        else:
            slot = '%x' % int(kid, 16)
            ser = num if kind == 'cert' else num + 77
            ent = ('CERTIFICATE', sim.der_body(sim.cert_der(k, 'c', ser,
                issuer(k), 'c')))
        if slot in taken:
            continue
        taken[slot] = k
        m[kid] = {'id': kid, 'signatureDeviceType': ent[0],
                'signatureCertificateOrPublicKey': ent[1]}
    ksj = {'certificateOrPublicKeyMap': m}
    if case['group']:
        num, k = case['group']
        der = sim.cert_der(k, 'g', num, issuer(k), 'g')
        kid = sim.key_id(num)
        for o in list(m):
            if o != kid and m[o]['signatureDeviceType'] == 'CERTIFICATE' \
                    and int(o, 16) == abs(num):
                del m[o]
        m[kid] = {'id': kid, 'signatureDeviceType': 'CERTIFICATE',
                'signatureCertificateOrPublicKey': sim.der_body(der)}
        g = sim.group(rec, sim.der_body(der))
        ctx.label('group')
    else:
        g = sim.group(rec)
        if len(m) < 2 and case['serial'] in m:
            ctx.trivial()
    ctx.label('closed' if case['closed'] else 'open')
    compare(ctx, {'Belege-Gruppe': [g]}, ksj, sim.aes_key(1), case['path'],
            cls=case['path']['p'] == 'dep')


# ------------------------------------------------- groups without certificate

def gen_mixed(d):
    sp = world(d, min_recs=2, max_recs=8, ndev=d.int(1, 2), multi=True)
    n = len(sp['recs'])
    sp['cuts'] = sorted(set(sp.get('cuts') or []) | {d.int(1, n - 1)})
    p = d.choice(['dep', 'dep', 'file', 'stream', 'dict'])
    return {'w': sp, 'none': [d.int(0, 8) for _ in range(d.int(1, 3))],
            'all': d.bool(1, 5), 'path': {'p': 'dep'} if p == 'dep' else {
                'p': p, 'chunk': 0 if p != 'dict' else 1000, 'layout': {
                    'order': 0}}}


def run_mixed(case, ctx):
    """ receipts of several groups, not all of which say which certificate
    they were signed with, are never verified with a key of another group """
    w = sim.World(case['w'])
    dep = w.dep()
    gs = dep['Belege-Gruppe']
    for i, g in enumerate(gs):
        if case['all'] or i in [x % len(gs) for x in case['none']]:
            g['Signaturzertifikat'] = ''
            g['Zertifizierungsstellen'] = []
    if len(gs) < 2:
        ctx.trivial()
        return
    ctx.label(case['path']['p'], 'all' if all(not g['Signaturzertifikat']
        for g in gs) else 'some')
    for trust in ('all', 'leaf'):
        ks = w.keystore(trust=trust)
        got = run_path(dep, ks, w.aes, case['path'])
        expect_eq(got[1], 'NoCertificateGivenException', 'verdict on a DEP '
                'with %d groups in one chunk, some without certificate' %
                len(gs))


SUBS = [Sub('keys', gen, run, 16000),
        Sub('mixed', gen_mixed, run_mixed, 2000)]
