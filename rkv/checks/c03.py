import string

from .. import sim
from ..paths import run_path
from ..runner import Sub, expect_eq
from ..strategies import world, path
from .common import compare

ID = 'C03'
TITLE = 'Removed, inserted, reordered or replaced receipts break the chain'
RULE = ('a case counts if the sequence of receipts of a valid DEP was changed '
        'or one chaining value is wrong; distinct by scenario and change')

OPS = ['del', 'del', 'swap', 'move', 'dup', 'chain', 'chain', 'fork', 'tail',
    'head', 'reverse', 'chainprev2', 'chainid', 'delgroup', 'swapgroup',
    'foreign', 'qrchain', 'movegroup']


def gen(d, lo=2, hi=10):
    sp = world(d, min_recs=lo, max_recs=hi, multi=d.bool(2, 3))
    n = len(sp['recs'])
    op = d.choice(OPS)
    c = {'w': sp, 'op': op, 'key': d.bool(), 'path': path(d, n)}
    if op in ('swapgroup', 'delgroup', 'movegroup'):
        sp['multi'] = True
        sp.setdefault('cuts', [1, n // 2])
    c['i'] = d.int(0, n - 1)
    c['j'] = d.int(0, n - 1)
    if op == 'chain':
        raw = bytearray(8)
        k = d.int(0, 3)
        # a wrong value of the right length, in a receipt signed like that
        sp['recs'][c['i']]['o'] = {'chain': sim.b64(bytes(
            [d.int(0, 255) for _ in range(8)]))}
    if op == 'fork':
        # another receipt with the same predecessor, correctly signed
        c['alt'] = {'id': 'fork', 'c': [d.int(-9, 9), 0, 0, 0, 0]}
    return c


def run(case, ctx):
    sp = case['w']
    op, i, j = case['op'], case['i'], case['j']
    w = sim.World(sp)
    recs = list(w.jws)
    n = len(recs)
    if op in ('chainprev2', 'chainid', 'qrchain', 'bitchain'):
        # rebuild with a chaining value that refers to something else
        if i == 0 and op != 'qrchain':
            i = n - 1
        if op == 'chainprev2':
            v = sim.chain_value(recs[i - 2] if i >= 2 else recs[i])
        elif op == 'chainid':
            v = sim.chain_value(sp['reg'])
        elif i:
            v = sim.chain_value(sim.qr(recs[i - 1]))
        else:
            v = sim.chain_value(sp['recs'][0]['id'])
        sp['recs'][i]['o'] = {'chain': v}
        w = sim.World(sp)
    elif op == 'chain':
        pass
    elif op == 'fork':
        r = dict(sp['recs'][i], **case['alt'])
        alt = sim.World(dict(sp, recs=sp['recs'][:i] + [r])).jws[-1]
        w.jws[i] = alt
    elif op in ('delgroup', 'swapgroup', 'movegroup'):
        dep = w.multi(set(sp['cuts']))
        g = dep['Belege-Gruppe']
        a, b = i % len(g), j % len(g)
        if op == 'delgroup':
            if len(g) > 1:
                del g[a]
        elif op == 'swapgroup':
            g[a], g[b] = g[b], g[a]
        else:
            g.insert(b, g.pop(a))
        ctx.label(op)
        compare(ctx, dep, w.keystore(trust='all'), w.aes if case['key']
                else None, case['path'])
        return
    else:
        idx = list(range(n))
        if op == 'del':
            del idx[i]
        elif op == 'swap':
            k = (i + 1) % n
            idx[i], idx[k] = idx[k], idx[i]
        elif op == 'move':
            idx.insert(j, idx.pop(i))
        elif op == 'dup':
            idx.insert(j, i)
        elif op == 'tail':
            idx = idx[:max(1, i)]
        elif op == 'head':
            idx = idx[min(i, n - 1):]
        elif op == 'reverse':
            idx = idx[::-1]
        elif op == 'foreign':
            # a receipt of another register with the same ID and devices
            o = sim.World(dict(sp, aes=sp['aes'] + 1, recs=[dict(r,
                id=r['id'] + 'f', o=None) for r in sp['recs'][:i + 1]]))
            recs.append(o.jws[-1])
            w.recdev.append(o.recdev[-1])
            idx.insert(j, n)
        if not idx:
            idx = [0]
        w.jws = [recs[k] for k in idx]
        w.recdev = [w.recdev[k] for k in idx]
    ctx.label(op)
    compare(ctx, w.dep(), w.keystore(trust='all'), w.aes if case['key']
            else None, case['path'])


def gen_single(d):
    """ one wrong chaining value, otherwise consistent: exact error """
    sp = world(d, min_recs=1, max_recs=8)
    n = len(sp['recs'])
    i = d.choice([0, d.int(0, n - 1), n - 1])
    return {'w': sp, 'i': i, 'bit': d.int(0, 63), 'len': d.choice([8, 8, 8, 8,
        8, 7, 9, 0, 32]), 'form': d.weighted(6, None, 1, 'pad', 1, 'bits'), 'key': d.bool(), 'path': {'p': 'dep'}
        if d.bool() else path(d, n)}


def run_single(case, ctx):
    sp = case['w']
    i = case['i']
    good = sim.unb64u(sim.fields(sim.World(sp).jws[i])[11].replace('+', '-'
        ).replace('/', '_').rstrip('='))
    v = int.from_bytes(good, 'big') ^ (1 << case['bit'])
    b = v.to_bytes(8, 'big')
    if case['len'] != 8:
        full = sim.sha256((sim.World(sp).jws[i - 1] if i else sp['reg']
            ).encode('utf-8'))
        b = full[:case['len']]
    text = sim.b64(b)
    if case.get('form'):
        # the right bytes, written differently
        text = sim.b64(good)
        if case['form'] == 'pad':
            text += '=' * (1 + case['bit'] % 2)
        else:
            a = string.ascii_uppercase + string.ascii_lowercase + \
                    string.digits + '+/'
            text = text[:-2] + a[a.index(text[-2]) ^ (1 + case['bit'] % 3)] \
                    + '='
        ctx.label(case['form'])
    sp['recs'][i]['o'] = {'chain': text}
    w = sim.World(sp)
    if case.get('form'):
        # not what the predecessor asks for, whether it is well-formed or not
        got = run_path(w.dep(), w.keystore(trust='all'), w.aes if case['key']
                else None, case['path'])
        expect_eq(got[0], 'bad', 'verdict on the chaining value %r' % text)
        return
    ctx.label('first' if i == 0 else 'later', 'len%d' % case['len'])
    compare(ctx, w.dep(), w.keystore(trust='all'), w.aes if case['key']
            else None, case['path'], want='bad',
            cls=case['path']['p'] == 'dep')


SUBS = [Sub('edit', gen, run, 7000),
        Sub('long', lambda d: gen(d, 60, 200), run, 40), Sub('value', gen_single, run_single, 4000)]
