import io
import itertools
import json
import re

from .. import sim
from ..paths import (make_parser, dump, Stream, depparser, receipt, utils,
        run_path, keystore)
from ..ref import groups_of, Bad
from ..runner import Sub, expect, expect_eq
from ..strategies import layout, json_value, scalar
from .c16 import CERTS, body

ID = 'C17'
QUICK = 4
TITLE = 'Malformed DEP files always give a documented error'
RULE = ('structure, where, dup: JSON documents that differ from a well-formed DEP in '
        'structure; bytes: files with edited or truncated bytes; a case '
        'counts if the document differs from a well-formed DEP; distinct by '
        'document, parser and chunk size')
ASSUMPTIONS = ['repeated elements in one JSON object (for parsers that read '
        'the file as a whole), encodings other than UTF-8 and text after the end of the document are left open']

PARSERS = ['dict', 'full', 'file', 'file', 'text', 'stream', 'certless']
KEYS = ['Signaturzertifikat', 'Zertifizierungsstellen', 'Belege-kompakt']


def base(d):
    def group(i):
        c = d.int(-1, 3)
        return sim.group(['g%d.r%d' % (i, k) for k in range(d.int(0, 4))],
                CERTS[c] if c >= 0 else '', [CERTS[x] for x in
                    d.list(0, 2, lambda i: d.int(0, 4))])
    g = d.list(1, 4, group)
    if not any(x['Belege-kompakt'] for x in g):
        g[-1]['Belege-kompakt'] = ['r1', 'r2']
    return {'Belege-Gruppe': g}


def gen_structure(d):
    dep = base(d)
    g = dep['Belege-Gruppe']
    ops = []
    for _ in range(d.choice([1, 1, 1, 2])):
        i = d.int(0, len(g) - 1)
        x = g[i]
        op = d.choice(['missing', 'missing', 'type', 'type', 'group', 'receipt',
            'receipt', 'chaincert', 'cert', 'root', 'rootelem', 'norecs',
            'rename', 'extra', 'nest'])
        ops.append(op)
        if not isinstance(x, dict):
            continue
        k = d.choice(KEYS)
        if op == 'missing':
            x.pop(k, None)
        elif op == 'type':
            x[k] = scalar(d) if d.bool() else json_value(d)
        elif op == 'group':
            g[i] = scalar(d)
        elif op == 'receipt':
            r = x.get('Belege-kompakt')
            if isinstance(r, list):
                r.insert(d.int(0, len(r)), d.choice([None, True, 0, 1.5, [],
                    {}, ['x'], {'item': 'x'}]))
        elif op == 'chaincert':
            r = x.get('Zertifizierungsstellen')
            if isinstance(r, list):
                r.insert(d.int(0, len(r)), d.choice([None, True, 0, 1.5, [],
                    {}, '', 'AAAA', 'é', [CERTS[0]], CERTS[0][:-9]]))
        elif op == 'cert':
            x['Signaturzertifikat'] = d.choice([None, True, 0, [], {}, 'AAAA',
                'é', ' ', CERTS[0][:-9], [CERTS[0]], 'x' * 100])
        elif op == 'root':
            return {'doc': d.choice([scalar(d), g, [dep],
                {'Belege-Gruppe': dep}, {'x': dep}]), 'ops': ['root'],
                'p': d.choice(PARSERS), 'chunk': d.int(0, 4), 'layout': {}}
        elif op == 'rootelem':
            dep = {d.choice(['Belege-Gruppe', 'Belege-Gruppen', 'belege-gruppe',
                '']): scalar(d)}
            break
        elif op == 'norecs':
            for y in g:
                if isinstance(y, dict):
                    y['Belege-kompakt'] = []
        elif op == 'rename':
            if k in x:
                x[d.choice([k.lower(), k + ' ', 'x', ''])] = x.pop(k)
        elif op == 'extra':
            x[d.choice(['extra', 'Belege', 'item', 'a.b', '', '.',
                    'Belege-Gruppe.item', 'Belege-kompakt.item'])] = json_value(d)
            dep[d.choice(['Meta', 'item', 'x.y', '', 'Belege-Gruppe.item'])] = json_value(d)
        elif op == 'nest':
            g[i] = [x]
    lay = layout(d)
    lay['extra'] = lay['extra'] and d.bool()
    return {'doc': dep, 'ops': ops, 'p': d.choice(PARSERS),
            'chunk': d.choice([0, 0, 1, 1, 2, 3, 5, 100]), 'layout': lay}


def collect(parser, chunk):
    """ -> ('ok', receipts) | ('bad', exception) """
    try:
        out = []
        for c in parser.parse(chunk):
            for recs, cert, chain in c:
                out += [(depparser.expandDEPReceipt(r),
                    None if cert is None else body(cert),
                    [body(x) for x in chain]) for r in recs]
        return ('ok', out)
    except utils.RKSVException as e:
        str(e)
        return ('bad', e)


def build(p, doc, raw):
    if p == 'dict':
        return depparser.DictDEPParser(doc)
    if p == 'full':
        return depparser.FullFileDEPParser(io.BytesIO(raw))
    if p == 'file':
        return depparser.IncrementalDEPParser.fromFd(io.BytesIO(raw))
    if p == 'text':
        return depparser.IncrementalDEPParser.fromFd(io.TextIOWrapper(
            io.BytesIO(raw), encoding='utf-8'))
    return depparser.IncrementalDEPParser.fromFd(Stream(raw), p == 'stream')


def run_structure(case, ctx):
    doc, p = case['doc'], case['p']
    lay = case['layout']
    if p in ('stream', 'certless'):
        lay = dict(lay, bom=False)
    if p == 'stream' and case['chunk']:
        lay = dict(lay, order=0)
    raw = dump(doc, lay) if isinstance(doc, dict) else \
            json.dumps(doc).encode('utf-8')
    want = None
    try:
        groups_of(doc)
        want = [(r, g['Signaturzertifikat'] or None,
            g['Zertifizierungsstellen']) for g in doc['Belege-Gruppe']
            for r in g['Belege-kompakt']]
    except Bad:
        pass
    ctx.label(p, *case['ops'])
    if p == 'stream' and case['chunk'] and want is not None and \
            'extra' in case['ops']:
        ctx.trivial()
    got = collect(build(p, doc, raw), case['chunk'])
    if want is None:
        ctx.label('malformed')
        if p == 'certless' and got[0] == 'ok':
            # it documents that certificates are not looked at
            expect(False, 'malformed DEP delivered completely')
        expect(got[0] == 'bad', 'malformed DEP accepted: %r', doc)
        expect(isinstance(got[1], depparser.DEPParseException), 'wrong kind of '
                'error: %r', got[1])
    else:
        ctx.label('wellformed')
        expect(got[0] == 'ok', 'well-formed DEP refused: %r', got[1])
        expect_eq([x[0] for x in got[1]], [x[0] for x in want], 'receipts')
        if p != 'certless':
            expect_eq(got[1], want, 'receipts and certificates')


# --------------------------------------------------------------------- where

def gen_where(d):
    dep = base(d)
    i = d.int(0, len(dep['Belege-Gruppe']) - 1)
    lay = layout(d)
    lay['extra'] = lay['extra'] and d.bool(1, 4)
    wrong = d.choice([None, None, True, 0, 1.5, {}, {'item': 'x'}])
    if not d.bool():
        wrong = 'missing'
    return {'doc': dep, 'i': i, 'key': d.choice(KEYS), 'root': d.bool(1, 8), 'wrong': wrong,
            'p': d.choice(PARSERS), 'chunk': d.choice([0, 0, 1, 1, 2, 3, 100]),
            'layout': lay}


def run_where(case, ctx):
    """ one defect in one group: the error names the element and the group """
    doc, p, i, key = (case[k] for k in ('doc', 'p', 'i', 'key'))
    if case['root']:
        ctx.label(p, 'root')
        del doc['Belege-Gruppe']
        got = collect(build(p, doc, dump(doc, {'extra': case['layout'][
            'extra']})), case['chunk'])
        expect(got[0] == 'bad' and isinstance(got[1],
            depparser.MissingDEPElementException), 'missing Belege-Gruppe: %r',
            got)
        expect('Belege-Gruppe' in str(got[1]), 'error does not name the '
                'missing element: %s', got[1])
        return
    x = doc['Belege-Gruppe'][i]
    if case['wrong'] == 'missing':
        del x[key]
    else:
        x[key] = case['wrong']
    lay = case['layout']
    if p in ('stream', 'certless'):
        lay = dict(lay, bom=False)
    if p == 'stream' and case['chunk']:
        lay = dict(lay, order=0, extra=False)
    ctx.label(p, key, 'missing' if case['wrong'] == 'missing' else 'type')
    if len(doc['Belege-Gruppe']) < 2:
        ctx.trivial()
    got = collect(build(p, doc, dump(doc, lay)), case['chunk'])
    expect(got[0] == 'bad', 'malformed DEP accepted: %r', doc)
    e = got[1]
    if p == 'stream' and case['chunk']:
        expect(isinstance(e, depparser.MalformedDEPException),
                'wrong kind of error: %r', e)
    else:
        expect(isinstance(e, depparser.MissingDEPElementException if
            case['wrong'] == 'missing' else
            depparser.MalformedDEPElementException), 'wrong kind of error: %r',
            e)
        expect(key in str(e), 'error does not name element %s: %s', key, e)
    expect(re.search(r'\b%d\b' % i, str(e)), 'error does not name group %d: %s',
            i, e)


# ----------------------------------------------------------------------- dup

class Pairs(dict):
    """ a JSON object with repeated names """
    def __init__(self, pairs):
        dict.__init__(self, pairs)
        self.pairs = pairs

    def items(self):
        return self.pairs


def gen_dup(d):
    dep = base(d)
    g = dep['Belege-Gruppe']
    key = d.choice(KEYS + ['Belege-Gruppe'])
    c = lambda: CERTS[d.int(0, 4)] if d.bool() else ''
    first, second = [
        d.choice(['same', 'empty', 'other']) for _ in range(2)]
    other = {'Signaturzertifikat': CERTS[d.int(0, 3)],
        'Zertifizierungsstellen': [CERTS[d.int(0, 4)]],
        'Belege-kompakt': ['other'], 'Belege-Gruppe': [sim.group(['other'],
            '', [])]}[key]
    return {'doc': dep, 'i': d.int(0, len(g) - 1), 'key': key, 'first': first,
        'second': second, 'other': other, 'order': d.int(0, 5),
        'at': d.int(0, 3), 'extra': d.bool(1, 4),
        'p': d.choice(['file', 'text', 'stream', 'certless']),
        'chunk': d.choice([0, 0, 1, 1, 2, 3, 100])}


def run_dup(case, ctx):
    """ an element that is there twice is never merged or replaced silently by
    a parser that reads incrementally (the others see one of them only) """
    doc, key = case['doc'], case['key']
    top = key == 'Belege-Gruppe'
    x = doc if top else doc['Belege-Gruppe'][case['i']]
    pick = lambda how: {'same': x[key], 'empty': type(x[key])(),
        'other': case['other']}[how]
    one, two = pick(case['first']), pick(case['second'])
    names = [key] if top else list(element_orders()[case['order']])
    pairs = [(k, x[k]) for k in names]
    if case['extra']:
        pairs.insert(0, ('Kommentar', [{'Belege-kompakt': ['y']}]))
    at = [k for k, v in pairs].index(key)
    pairs[at] = (key, one)
    pairs.insert(at + 1 + case['at'] % (len(pairs) - at), (key, two))
    if top:
        doc = Pairs(pairs)
    else:
        doc['Belege-Gruppe'][case['i']] = Pairs(pairs)
    raw = json.dumps(doc).encode('utf-8')
    ctx.label(case['p'], key, case['first'] + '/' + case['second'])
    got = collect(build(case['p'], None, raw), case['chunk'])
    expect(got[0] == 'bad', 'DEP with a repeated %s accepted: %r', key, raw)
    expect(isinstance(got[1], depparser.DEPParseException), 'wrong kind of '
            'error: %r', got[1])


def element_orders():
    return list(itertools.permutations(KEYS))


# --------------------------------------------------------------------- bytes

TOKENS = [b'"', b'{', b'}', b'[', b']', b',', b':', b'null', b'\\', b'\xff',
        b'\xc3', b'\xed\xa0\x80', b'1', b'-', b'1e999', b'NaN', b'\\ud800',
        b'\\u00', b'\0', b'\n', b' ', b'/*x*/', b"'", b'true', b'\xef\xbb\xbf',
        b'1' * 400, b'1e99999999999999999999', b'"x":1e99999999999999999999,', b'[' * 50]


def gen_bytes(d):
    dep = base(d)
    lay = layout(d)
    raw = dump(dep, lay)
    kind = d.choice(['cut', 'cut', 'token', 'token', 'del', 'flip', 'dupkey',
        'tail', 'only'])
    p = d.int(0, len(raw))
    if kind == 'cut':
        raw = raw[:p]
    elif kind == 'token':
        for _ in range(d.int(1, 2)):
            q = d.int(0, len(raw))
            raw = raw[:q] + d.choice(TOKENS) + raw[q:]
    elif kind == 'del':
        raw = raw[:p] + raw[p + d.choice([1, 1, 2, 5]):]
    elif kind == 'flip':
        q = min(p, len(raw) - 1)
        raw = raw[:q] + bytes([raw[q] ^ (1 << d.int(0, 7))]) + raw[q + 1:]
    elif kind == 'dupkey':
        k = d.choice(KEYS + ['Belege-Gruppe']).encode()
        q = raw.find(b'"' + k + b'"')
        if q >= 0:
            raw = raw[:q] + b'"' + k + b'":' + d.choice([b'[]', b'""', b'null',
                b'["x"]', b'{}']) + b',' + raw[q:]
    elif kind == 'tail':
        raw += d.choice(TOKENS)
    else:
        raw = b''.join(d.list(0, 12, lambda i: d.choice(TOKENS)))
    return {'hex': raw.hex(), 'kind': kind,
            'p': d.choice(['full', 'file', 'file', 'stream', 'certless']),
            'chunk': d.choice([0, 0, 1, 1, 2, 3, 100])}


def no_dups(pairs):
    if len({k for k, v in pairs}) != len(pairs):
        raise KeyError('duplicate')
    return dict(pairs)


B64 = set('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'
        '0123456789+/=')


def cleaned(v):
    """ PEM readers skip some characters at the ends of lines, that is left
    open: the same document without those. """
    clean = lambda s: ''.join(c for c in s if c in B64) \
            if isinstance(s, str) else s
    if not isinstance(v, dict) or not isinstance(v.get('Belege-Gruppe'), list):
        return v
    g = []
    for x in v['Belege-Gruppe']:
        if isinstance(x, dict):
            x = dict(x)
            if 'Signaturzertifikat' in x:
                x['Signaturzertifikat'] = clean(x['Signaturzertifikat'])
            if isinstance(x.get('Zertifizierungsstellen'), list):
                x['Zertifizierungsstellen'] = [clean(c) for c in
                        x['Zertifizierungsstellen']]
        g.append(x)
    return dict(v, **{'Belege-Gruppe': g})


def is_bad(doc):
    try:
        groups_of(doc)
    except Bad:
        return True
    return False


def run_bytes(case, ctx):
    raw = bytes.fromhex(case['hex'])
    ctx.label(case['kind'], case['p'])
    got = collect(build(case['p'], None, raw), case['chunk'])
    ctx.label(got[0])
    try:
        doc = json.loads(raw.decode('utf-8-sig'), object_pairs_hook=no_dups)
    except KeyError:
        ctx.label('duplicates')
        return
    except RecursionError:
        return
    except ValueError:
        # not JSON: no parser may deliver the DEP as if nothing was wrong,
        # except that text after the end of the document may be ignored
        if case['kind'] == 'cut':
            expect(got[0] == 'bad', 'truncated file accepted')
        ctx.label('no JSON')
        if got[0] == 'bad':
            return
        try:
            t = raw.decode('utf-8-sig')
            json.JSONDecoder().raw_decode(t.lstrip())
            ctx.label('tail')
        except ValueError:
            expect(case['kind'] in ('token', 'flip'),
                    'file that is not JSON accepted')
            ctx.trivial()
        return
    try:
        groups_of(doc)
    except Bad:
        if got[0] == 'ok' and not is_bad(cleaned(doc)):
            ctx.label('characters outside base64 in a certificate')
            return
        expect(got[0] == 'bad', 'malformed DEP accepted')
        return
    if got[0] == 'ok':
        # ijson may replace unpaired surrogates
        lone = lambda r: ''.join('?' if 0xd800 <= ord(c) < 0xe000 else c
                for c in r)
        expect_eq([x[0] for x in got[1]], [lone(r) for g in
            doc['Belege-Gruppe'] for r in g['Belege-kompakt']], 'receipts')


SUBS = [Sub('structure', gen_structure, run_structure, 28000),
        Sub('where', gen_where, run_where, 6000),
        Sub('dup', gen_dup, run_dup, 6000),
        Sub('bytes', gen_bytes, run_bytes, 28000)]
