import io
import json

from .. import sim
from ..paths import make_parser, Stream, depparser, receipt, run_path, load_state
from ..ref import ref_verify
from ..runner import Sub, expect, expect_eq
from ..strategies import layout, world, path
from .c16 import CERTS as CERTS5, body

from librksv import depexport

ID = 'C22'
# certificates that have a lot in common with the first two: renewed with the
# same serial, the same key with a new serial, another key
CERTS = CERTS5 + [sim.der_body(x) for x in (
        sim.cert_der(1, 'c1', 11, 1, 'c1', start='210101000000Z'),
        sim.cert_der(1, 'c1', 111, 1, 'c1'),
        sim.cert_der(5, 'c2', 12, 2, 'c2'))]
TWINS = {0: [5, 6], 1: [7], 5: [0, 6], 6: [0, 5], 7: [1]}
TITLE = 'Exporting, merging, splitting and converting keeps every receipt'
RULE = ('a case counts if at least two groups or two files (pipeline), or two '
        'pieces or receipts (pieces, csv) are involved; distinct by receipts, '
        'groups and pipeline')
ASSUMPTIONS = ['receipts with a semicolon or outer white space in an ID have '
        'no CSV form', 'a stream is read to the end in order']

CSV_HEAD = ('Alg+ZDA;Register ID;Receipt ID;Date+Time;Sum A;Sum B;Sum C;Sum D;'
        'Sum E;Turnover Counter;Cert. Serial;Chaining Value;Signature')
PARSERS = ['dict', 'dict', 'full', 'fulltext', 'file', 'text', 'stream',
        'file', 'manual']


def gen(d):
    sp = world(d, min_recs=1, max_recs=6, multi=False, id_style='csv' if
            d.bool() else None)
    n = len(sp['recs'])
    certs = d.list(1, 3, lambda i: [d.int(-1, 4), d.list(0, 2, lambda i:
        d.int(0, 4))])

    if d.bool(1, 4):
        # the same as the first but for one certificate
        c = [d.int(0, 1), [d.int(0, 1) for _ in range(d.int(0, 2))]]
        t = [c[0], list(c[1])]
        k = d.int(0, len(t[1]))
        if k:
            t[1][k - 1] = d.choice(TWINS[t[1][k - 1]])
        else:
            t[0] = d.choice(TWINS[t[0]])
        certs = [c, t]

    def group(i):
        return {'c': d.int(0, len(certs) - 1), 'recs': d.list(0, d.choice([0,
            1, 2, 6]), lambda i: d.int(0, n - 1))}

    def file(i):
        gs = d.list(1, 5, group)
        if not any(g['recs'] for g in gs):
            gs[-1]['recs'] = [0]
        if d.bool(1, 300):
            # many receipts or groups
            x = d.choice(gs)
            if d.bool():
                x['recs'] = [d.int(0, n - 1)] * d.int(90, 300)
            else:
                gs += [dict(x, recs=[d.int(0, n - 1)]) for _ in range(d.int(90,
                    500))]
        p = d.choice(PARSERS)
        lay = layout(d)
        chunk = d.choice([0, 0, 1, 2, 3, d.int(1, 20), 1000])
        if p == 'stream':
            lay['bom'] = False
            if chunk:
                lay['order'] = d.int(0, 1)
        return {'groups': gs, 'p': p, 'layout': lay, 'chunk': chunk}

    return {'w': sp, 'certs': certs, 'files': d.list(1, 4, file), 'merge':
            d.bool(2, 3), 'out': d.choice(['pretty', 'compact', 'json', 'list',
                'gen', 'csv']), 'how': d.choice(['chain', 'ctor', 'append',
                    'extend', 'late']),
            'extra': d.choice([None, 'Version', 'Ä', 'A']), 'ahead': d.bool(1,
                4)}


def collect_json(exporter):
    out = exporter.export()
    s = ''.join(out)
    dep = json.loads(s)
    return dep


def run(case, ctx):
    w = sim.World(case['w'])

    def cc(g):
        c, ch = case['certs'][g['c']]
        return (CERTS[c] if c >= 0 else '', [CERTS[i] for i in ch])

    want = []           # one entry per group with receipts
    parts = []
    for f in case['files']:
        gs = f['groups']
        want += [([w.jws[i] for i in g['recs']],) + cc(g) for g in gs
                if g['recs'] or f['p'] == 'manual']

        def source(f=f, gs=gs):
            if f['p'] == 'manual':
                # the caller's own receipts, without a parser
                for g in gs:
                    c, ch = cc(g)
                    yield ((receipt.Receipt.fromJWSString(w.jws[i])
                        for i in g['recs']), depparser_cert(c),
                        [depparser_cert(x) for x in ch])
                return
            dep = {'Belege-Gruppe': [sim.group([w.jws[i] for i in g['recs']],
                *cc(g)) for g in gs]}
            for x in depparser.receiptGroupAdapter(make_parser(f['p'], dep,
                    f['layout']).parse(f['chunk'])):
                yield x
        parts.append(source)
    cls = depexport.MergingDEPStream if case['merge'] else depexport.DEPStream
    how = case['how']
    if how == 'chain':
        st = cls.fromIterList([p() for p in parts])
    elif how == 'ctor':
        st = cls(x for p in parts for x in p())
    elif how == 'append':
        st = cls()
        for p in parts:
            for t in p():
                st.append(*t)
    elif how == 'extend':
        st = cls()
        for p in parts:
            st.extend(p())
    else:
        st = cls(parts[0]())
        for p in parts[1:]:
            st.extend(p())
    if case.get('ahead'):
        # all groups are taken before the receipts of the first one are read
        st = iter(list(st))
        ctx.label('groups ahead')
    if len(want) < 2:
        ctx.trivial()
    ctx.label(case['out'], 'merge' if case['merge'] else 'plain', how)

    if case['merge']:
        merged = []
        for rs, c, ch in want:
            if merged and merged[-1][1:] == (c, ch):
                merged[-1][0].extend(rs)
            else:
                merged.append((list(rs), c, ch))
        if len(merged) < len(want):
            ctx.label('really merged')
    else:
        merged = want
    out = case['out']
    if out == 'csv':
        js = [j for g in want for j in g[0]]
        exp = depexport.CSVExporter(st)
        if case['extra']:
            exp.addExtra(case['extra'], 'x')
        got = ''.join(exp.export())
        expect_eq(got, '\n'.join([CSV_HEAD] + [sim.csv(j) for j in js]),
                'CSV file')
        return
    if out in ('pretty', 'compact', 'json'):
        exp = depexport.JSONExporter(st) if out == 'json' else \
                depexport.JSONExporter(st, out == 'pretty')
    elif out == 'list':
        exp = depexport.DEPExporter(st, list)
    else:
        exp = depexport.DEPExporter(st)
    if case['extra']:
        exp.addExtra(case['extra'], {'n': [1]})
    if out in ('list', 'gen'):
        dep = exp.export()
        if out == 'gen':
            dep = {k: ([dict(g, **{'Belege-kompakt':
                list(g['Belege-kompakt'])}) for g in v] if k == 'Belege-Gruppe'
                else v) for k, v in dep.items()}
        dep = json.loads(json.dumps(dep))
    else:
        text = ''.join(exp.export())
        if out == 'compact':
            expect('\n' not in text, 'line break in compact form')
        dep = json.loads(text)
        if any(g['Belege-kompakt'] for g in dep['Belege-Gruppe']):
            # the certificates come first: a pipe can be read in small chunks
            back = []
            for c in depparser.IncrementalDEPParser.fromFd(Stream(
                    text.encode('utf-8'))).parse(1 + len(case['files']) % 3):
                for rs, cert, chain in c:
                    back += [(depparser.expandDEPReceipt(r), body(cert) if cert
                        else '', [body(x) for x in chain]) for r in rs]
            expect_eq(back, [(r, g['Signaturzertifikat'],
                g['Zertifizierungsstellen']) for g in dep['Belege-Gruppe']
                for r in g['Belege-kompakt']], 'exported DEP read from a pipe')
    expect_eq(sorted(dep), sorted(['Belege-Gruppe'] + ([case['extra']]
        if case['extra'] else [])), 'top level elements')
    if case['extra']:
        expect_eq(dep[case['extra']], {'n': [1]}, 'extra element')
    got = []
    for g in dep['Belege-Gruppe']:
        expect_eq(sorted(g), ['Belege-kompakt', 'Signaturzertifikat',
            'Zertifizierungsstellen'], 'group elements')
        got.append((g['Belege-kompakt'], g['Signaturzertifikat'],
            g['Zertifizierungsstellen']))
    flat = lambda gs: [(r,) + g[1:] for g in gs for r in g[0]]
    expect_eq(flat(got), flat(merged), 'receipts with certificates')
    if not case['merge'] and any(f['chunk'] for f in case['files']):
        return
    # empty groups given by the caller
    got = [g for g in got if g[0]]
    merged = [g for g in merged if g[0]]
    expect_eq([len(g[0]) for g in got], [len(g[0]) for g in merged],
            'sizes of the groups')


_certs = {}


def depparser_cert(c):
    """ body of a certificate -> certificate object """
    from librksv import utils
    if not c:
        return None
    if c not in _certs:
        _certs[c] = utils.loadCert(utils.addPEMCertHeaders(c))
    return _certs[c]


def gen_pieces(d):
    sp = world(d, min_recs=1, max_recs=12)
    n = len(sp['recs'])
    case = {'w': sp, 'chunk': d.int(1, n + 1), 'p': d.choice(['file', 'text',
        'stream', 'dict']), 'layout': layout(d), 'merge': d.bool(),
        'key': d.bool(), 'path': path(d, n), 'pretty': d.bool()}
    if d.bool(1, 3):
        case['bad'] = [d.int(0, n - 1), d.choice(['chain', 'delta', 'key'])]
    if case['p'] == 'stream':
        case['layout']['bom'] = False
        case['layout']['order'] = d.int(0, 1)
    return case


def run_pieces(case, ctx):
    """ a split DEP, in pieces and put together again """
    sp = json.loads(json.dumps(case['w']))
    if 'bad' in case:
        i, what = case['bad']
        sp['recs'][i].setdefault('o', {})[what] = {'chain':
                sim.chain_value('?'), 'delta': 1, 'key': 4242}[what]
    w = sim.World(sp)
    dep = w.dep()
    ks = w.keystore()
    key = w.aes if case['key'] else None
    groups = lambda dep: [(g['Belege-kompakt'], g['Signaturzertifikat'],
        g['Zertifizierungsstellen']) for g in dep['Belege-Gruppe']]
    want = [g for g in groups(dep) if g[0]]
    pieces = []
    for chunk in make_parser(case['p'], dep, case['layout']).parse(
            case['chunk']):
        st = depexport.DEPStream(depparser.receiptGroupAdapter([chunk]))
        pieces.append(json.loads(''.join(depexport.JSONExporter(st,
            case['pretty']).export())))
    flat = lambda gs: [(r,) + g[1:] for g in gs for r in g[0]]
    expect_eq([x for p in pieces for x in flat(groups(p))], flat(want),
            'receipts in the pieces')
    for p in pieces[:-1]:
        expect_eq(len(flat(groups(p))), case['chunk'], 'size of a piece')
    if len(pieces) < 2:
        ctx.trivial()
    cls = depexport.MergingDEPStream if case['merge'] else depexport.DEPStream
    whole = json.loads(''.join(depexport.JSONExporter(cls.fromIterList(
        [depparser.receiptGroupAdapter(depparser.DictDEPParser(p).parse())
            for p in pieces])).export()))
    expect_eq(flat(groups(whole)), flat(want), 'receipts of the merged DEP')
    if case['merge']:
        m = []
        for rs, c, ch in want:
            if m and m[-1][1:] == (c, ch):
                m[-1] = (m[-1][0] + rs, c, ch)
            else:
                m.append((rs, c, ch))
        expect_eq(groups(whole), m, 'merged DEP')
    if not case['merge'] and len(whole['Belege-Gruppe']) > 1 and not \
            want[0][1]:
        # several groups without certificates are refused
        ctx.label('no certificates')
        return
    ref = ref_verify(dep, ks, key)
    if ref[0] == '?':
        return
    ctx.label(ref[0])
    got = run_path(whole, ks, key, case['path'])
    expect_eq(got[0], ref[0], 'verdict on the merged DEP (%r)' % (got[1:],))
    st = None
    for p in pieces:
        r = run_path(p, ks, key, case['path'], st, 0 if st else None)
        if r[0] != 'ok':
            break
        st = load_state(r[1])
    expect_eq(r[0], ref[0], 'verdict on the pieces (%r)' % (r[1:],))
    if ref[0] == 'ok':
        expect_eq(r[1], got[1], 'state after the pieces')


def gen_csv(d):
    sp = world(d, min_recs=1, max_recs=8, id_style='csv')
    return {'w': sp, 'p': d.choice(['certless', 'file', 'dict', 'stream']),
            'chunk': d.int(0, 9), 'eol': d.choice(['\n', '\r\n']), 'path':
            path(d, 9), 'pretty': d.bool(), 'bad': d.bool(1, 3)}


def run_csv(case, ctx):
    """ DEP -> CSV -> DEP """
    sp = json.loads(json.dumps(case['w']))
    if case['bad']:
        sp['recs'][-1].setdefault('o', {})['key'] = 4242
    w = sim.World(sp)
    dep = w.dep()
    lay = {'order': 0}
    st = depexport.DEPStream(depparser.receiptGroupAdapter(make_parser(
        case['p'], dep, lay).parse(case['chunk'])))
    text = ''.join(depexport.CSVExporter(st).export())
    expect_eq(text, '\n'.join([CSV_HEAD] + [sim.csv(j) for j in w.jws]), 'CSV')
    lines = io.StringIO(text.replace('\n', case['eol']) + case['eol'],
            newline='')
    next(lines)
    back = json.loads(''.join(depexport.JSONExporter.fromSingleGroup(
        (receipt.Receipt.fromCSV(x.strip()) for x in lines)).export()))
    expect_eq(back, {'Belege-Gruppe': [sim.group(w.jws)]}, 'JSON -> CSV -> '
            'JSON')
    if len(w.jws) < 2:
        ctx.trivial()
    ctx.label(case['p'])
    ks = w.keystore(trust='all')
    ref = ref_verify(back, ks, w.aes)
    if ref[0] == '?':
        return
    got = run_path(back, ks, w.aes, case['path'])
    expect_eq(got[0], ref[0], 'verdict after the conversion (%r)' % (got[1:],))
    ctx.label(ref[0])


# ------------------------------------------------------------------- scale

def gen_scale(d):
    return {'n': d.choice([1000, 20000, 100000, 150000]), 'how': d.choice([
        'merge', 'append', 'extend', 'ctor']), 'same': d.int(1, 5),
        'mod': d.int(1, 3)}


def run_scale(case, ctx):
    """ the streams hold any number of groups """
    n, how = case['n'], case['how']
    gs = [([('r', i)], None, [i // case['same'] % (n if case['mod'] > 1 else
        2)]) for i in range(n)]
    st = (depexport.MergingDEPStream if how == 'merge' or case['mod'] == 3
            else depexport.DEPStream)(gs if how in ('merge', 'ctor') else None)
    for k, g in enumerate(gs):
        if how == 'append':
            st.append(*g)
        elif how == 'extend':
            st.extend(gs[k:k + 1])
    ctx.label(how, type(st).__name__)
    got = [(r[1], cs) for rs, c, cs in st for r in rs]
    expect_eq(len(got), n, 'number of receipts')
    expect(got == [(i, g[2]) for i, g in enumerate(gs)], 'receipts changed')


SUBS = [Sub('pipeline', gen, run, 12000),
        Sub('pieces', gen_pieces, run_pieces, 2400),
        Sub('csv', gen_csv, run_csv, 2400),
        Sub('scale', gen_scale, run_scale, 24, 48)]
