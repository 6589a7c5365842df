import io

from .. import sim
from ..paths import (make_parser, dump, Stream, depparser, receipt)
from ..runner import Sub, expect, expect_eq
from ..strategies import layout, world

from cryptography.hazmat.primitives.serialization import Encoding

ID = 'C16'
TITLE = 'All DEP parsers deliver every receipt once, in order, in chunks'
RULE = ('a case counts if the DEP has at least two receipts; distinct by group '
        'structure, file layout, parser and chunk size')

CERTS = [sim.der_body(sim.cert_der(k, 'c%d' % k, 10 + k, k, 'c%d' % k,
        ext=[0, 0, 0, 0, 2500][k - 1]))
        for k in range(1, 6)]
PARSERS = ['dict', 'full', 'fulltext', 'file', 'text', 'stream', 'certless',
        'file', 'offset', 'offtext', 'offfull']


def gen(d):
    n = [0]

    def group(i):
        def rec(i):
            n[0] += 1
            return d.choice(['r%d' % n[0]] * 5 + ['same', '', 'é☕%d' % n[0],
                '"\\\n', '\U0001f4b6', 'x' * 300, 'a.b.c'])
        return {'cert': d.int(-1, 4) if d.bool(3, 4) else -1,
                'chain': d.list(0, 3, lambda i: d.int(0, 4)),
                'recs': d.list(0, d.choice([0, 1, 3, 9]), rec)}

    groups = d.list(1, 8, group)
    if not any(g['recs'] for g in groups):
        groups[d.int(0, len(groups) - 1)]['recs'] = ['x']
    if d.bool(1, 200):
        # many receipts or groups
        i = d.int(0, len(groups) - 1)
        k = d.int(90, 1300)
        if d.bool():
            groups[i]['recs'] = ['m%d' % j for j in range(k)]
        else:
            groups[i:i] = [dict(groups[i], recs=['m%d' % j]) for j in range(k
                // 4)]
    total = sum(len(g['recs']) for g in groups)
    p = d.choice(PARSERS)
    lay = layout(d)
    chunk = d.choice([0, 0, 1, 1, 2, 3, 4, d.int(1, total + 1), total,
        total + 1, 10 ** 6])
    if p == 'stream':
        lay['bom'] = False
        if chunk:
            lay['order'] = d.int(0, 1)
    if p == 'certless':
        lay['bom'] = d.bool()
    return {'groups': groups, 'p': p, 'layout': lay, 'chunk': chunk,
            'nparts': d.choice([1, 1, 2, 3, 7]), 'again': d.bool(1, 3),
            'lazy': d.bool(), 'step': d.int(1, 50)}


def gen_large(d):
    """ files of several read buffers of the JSON parser (64 KiB each) """
    case = gen(d)
    while not case['p'] in ('file', 'text', 'offset'):
        case['p'] = d.choice(['file', 'text', 'offset'])
    n = [0]

    def rec(i):
        n[0] += 1
        return ['r%d ' % n[0], d.choice([1, 300, 5000, 40000, 65000])]

    for g in case['groups']:
        g['recs'] = d.list(0, 4, rec)
    case['groups'][0]['recs'] = [['a', 60000], ['b', 30000]]
    case['chunk'] = d.choice([1, 1, 2, 3, 5])
    case['layout']['order'] = d.choice([2, 3, 4, 5])
    return case


def run_large(case, ctx):
    case = dict(case, groups=[dict(g, recs=[a + 'x' * k for a, k in g['recs']])
        for g in case['groups']])
    run(case, ctx)


def body(c):
    return sim.b64(c.public_bytes(Encoding.DER))


def run(case, ctx):
    dep = {'Belege-Gruppe': [sim.group(g['recs'], CERTS[g['cert']]
        if g['cert'] >= 0 else '', [CERTS[i] for i in g['chain']])
        for g in case['groups']]}
    want = [(r, CERTS[g['cert']] if g['cert'] >= 0 else None,
        [CERTS[i] for i in g['chain']]) for g in case['groups']
        for r in g['recs']]
    if len(want) < 2:
        ctx.trivial()
    p, chunk = case['p'], case['chunk']
    if p in ('offset', 'offfull'):
        # a file that does not begin at its start
        fd = io.BytesIO(b'garbage{' + dump(dep, case['layout']))
        fd.seek(8)
        parser = depparser.FullFileDEPParser(fd, case['nparts']) \
                if p == 'offfull' else \
                depparser.IncrementalDEPParser.fromFd(fd)
    elif p == 'offtext':
        fd = io.StringIO('g\xe4rbage{' + dump(dep, case['layout']).decode(
            'utf-8'))
        fd.seek(8)
        parser = depparser.IncrementalDEPParser.fromFd(fd)
    elif p == 'stream' or p == 'certless' and not case['layout']['bom']:
        parser = depparser.IncrementalDEPParser.fromFd(Stream(dump(dep,
            case['layout']), case['step']), p == 'stream')
    else:
        parser = make_parser(p, dep, case['layout'], case['nparts'])
    ctx.label(p, 'chunk0' if not chunk else 'chunked')
    for rnd in range(2 if case['again'] and p not in ('stream', 'certless')
            else 1):
        if case['lazy']:
            # all chunks are held before any is looked at
            chunks = list(parser.parse(chunk))
        else:
            chunks = parser.parse(chunk)
        got = []
        count = 0
        for c in chunks:
            count += 1
            expect(len(c) > 0, 'empty chunk')
            n = 0
            for recs, cert, chain in c:
                cb = None if cert is None else body(cert)
                ch = [body(x) for x in chain]
                for r in recs:
                    expect(isinstance(r, bytes), 'receipt is no byte string')
                    got.append((r.decode('utf-8'), cb, ch))
                    n += 1
            if chunk:
                expect(n <= chunk, '%d receipts in a chunk of %d', n, chunk)
            expect(n > 0, 'chunk without receipts')
        expect_eq([g[0] for g in got], [w[0] for w in want], 'receipts')
        if p == 'certless':
            for g, w in zip(got, want):
                expect(g[1] in (None, w[1]), 'wrong certificate')
                expect(g[2] == w[2][:len(g[2])], 'wrong chain')
        else:
            expect_eq([g[1:] for g in got], [w[1:] for w in want],
                    'certificates')
        ne = sum(1 for g in case['groups'] if g['recs'])
        if p in ('dict', 'full', 'fulltext', 'offfull'):
            if not chunk and case['nparts'] == 1:
                expect_eq(count, ne, 'number of chunks (one per group)')
            elif not chunk:
                expect(count <= case['nparts'], '%d chunks, wanted %d parts',
                        count, case['nparts'])
        elif not chunk:
            expect_eq(count, 1, 'number of chunks')


def gen_adapter(d):
    sp = world(d, min_recs=1, max_recs=8, multi=d.bool())
    return {'w': sp, 'p': d.choice(['dict', 'file', 'stream']),
            'chunk': d.int(0, 9)}


def run_adapter(case, ctx):
    """ receipts as objects """
    w = sim.World(case['w'])
    dep = w.dep()
    got = []
    for tuples, cert, chain in depparser.receiptGroupAdapter(
            make_parser(case['p'], dep).parse(case['chunk'])):
        got += [(r.toJWSString(a), None if cert is None else body(cert),
            [body(c) for c in chain]) for r, a in tuples]
    want = [(r, g['Signaturzertifikat'] or None, g['Zertifizierungsstellen'])
            for g in dep['Belege-Gruppe'] for r in g['Belege-kompakt']]
    ctx.label(case['p'])
    expect_eq(got, want, 'receipt objects')


SUBS = [Sub('large', gen_large, run_large, 300),
        Sub('chunks', gen, run, 64000),
        Sub('objects', gen_adapter, run_adapter, 1600)]
