from .. import sim
from ..runner import Sub
from ..strategies import world, path, devices, Ids, T_MAX, BASES
from .common import compare

ID = 'C07'
TITLE = 'Register ID, system type and time order stay consistent'
RULE = ('a case counts if one receipt changes register ID, system type or goes '
        'back in time, or a date lies at an edge; distinct by scenario')


def gen(d, lo=2, hi=9):
    sp = world(d, min_recs=lo, max_recs=hi, reg=d.choice(['Kasse', 'é', 'K1',
        'STRASSE', 'Straße', 'x']))
    n = len(sp['recs'])
    i = d.choice([1, n - 1, d.int(1, n - 1)])
    op = d.choice(['reg', 'reg', 'date', 'date', 'date', 'system', 'system',
        'same', 'edge'])
    r = sp['recs'][i]
    c = {'w': sp, 'i': i, 'op': op, 'key': d.bool(), 'path': path(d, n)}
    if op == 'reg':
        reg = sp['reg']
        new = d.choice([reg + '1', reg.lower(), reg.upper(), reg + ' ',
            'é', 'é', 'other', reg.casefold(), reg[:-1] or 'q'])
        upto = n if d.bool() else i + 1
        for x in sp['recs'][i:upto]:
            x['o'] = {'reg': new}
    elif op == 'date':
        back = d.choice([1, 1, 60, 3600, 86400, 365 * 86400, 10 ** 9])
        t = sp['recs'][i - 1]['t'] - back
        if t < BASES[-1]:
            t = BASES[-1]
        r['t'] = t
        if d.bool():
            # everything after it goes on from there
            for k, x in enumerate(sp['recs'][i + 1:]):
                x['t'] = min(T_MAX, t + k)
    elif op == 'same':
        for x in sp['recs'][i:]:
            x['t'] = r['t']
    elif op == 'edge':
        # order that a comparison of parts or of text could get wrong
        a, b = d.choice([('2016-12-31T23:59:59', '2017-01-01T00:00:00'),
            ('2017-01-31T00:00:00', '2017-02-01T00:00:00'),
            ('0999-01-01T00:00:00', '1000-01-01T00:00:00'),
            ('2017-03-26T02:30:00', '2017-03-26T03:00:00'),
            ('2016-02-28T23:59:59', '2016-02-29T00:00:00'),
            ('2017-01-01T09:59:59', '2017-01-01T10:00:00'),
            ('2017-01-02T00:00:00', '2017-01-10T00:00:00')])
        if d.bool():
            a, b = b, a
        for x in sp['recs'][:i]:
            x['o'] = {'ts': a}
        for x in sp['recs'][i:]:
            x['o'] = {'ts': b}
    else:
        closed = not sp['closed']
        dev = devices(d, closed, 1)[0]
        dev['k'] = sp['devs'][0]['k'] + 500
        while dev['ser'] in [x['ser'] for x in sp['devs']]:
            dev['ser'] += 2
        c['newdev'] = dev
        c['upto'] = n if d.bool() else i + 1
    return c


def run(case, ctx):
    sp = case['w']
    i = case['i']
    ctx.label(case['op'])
    if case['op'] == 'system':
        dev = sim.Device(case['newdev'], not sp['closed'])
        for x in sp['recs'][i:case['upto']]:
            x['o'] = {'zda': dev.zda, 'serial': dev.rec_serial, 'key': dev.key}
    w = sim.World(sp)
    ks = w.keystore(trust='all')
    dep = w.dep()
    if case['op'] == 'system':
        k2 = sim.KeyStoreJson()
        if dev.closed:
            k2.pubkey(dev.rec_serial, dev.key)
        k2.cert(dev.ders[0], dev.serials[0])
        ks['certificateOrPublicKeyMap'].update(k2.map)
        if sp.get('multi'):
            w.devs.append(dev)
            for x in range(i, case['upto']):
                w.recdev[x] = len(w.devs) - 1
            dep = w.dep()
    compare(ctx, dep, ks, w.aes if case['key'] else None, case['path'],
            cls=case['path']['p'] == 'dep' and case['op'] in ('reg', 'date',
                'system', 'edge'))


SUBS = [Sub('continuity', gen, run, 8000),
        Sub('long', lambda d: gen(d, 60, 200), run, 40)]
