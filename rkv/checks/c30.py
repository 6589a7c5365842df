import copy
import json
import urllib.parse

from .. import sim, cli
from ..paths import (dump, verdict, receipt, keystore, verify_receipt, utils)
from ..runner import Sub, expect, expect_eq
from ..strategies import world, layout
from .c09 import defect, mangle
from .c28 import draws

ID = 'C30'
TITLE = 'The receipt host serves exactly the receipts it was given'
RULE = ('a case counts if at least one receipt is stored and one request asks '
        'for something that is not; distinct by receipts, input and requests')
ASSUMPTIONS = ['the Flask application is driven by its test client; the '
        'network part of the web server is not exercised',
        'whether the first or last of two receipts with the same hash is '
        'served is not judged (no such pair is known)']

KINDS = ['own', 'own', 'own', 'pad', 'cut', 'swap', 'json', 'dot', 'space', 'low',
        'up', 'rev', 'long', 'std', 'other', 'text', 'empty', 'slash', 'sub',
        'pct', 'query', 'nul', 'code', 'id', 'star', 'comma', 'pre']


def gen(d):
    sp = world(d, min_recs=0 if d.bool(1, 8) else 1, max_recs=8)
    if d.bool(1, 3) and sp['recs']:
        defect(d, sp)
    n = max(1, len(sp['recs']))
    return {'w': sp, 'mode': d.choice(['dep', 'jws']), 'layout': layout(d),
            'env': d.choice([None, None, 0, 1, 2, 3, n]), 'reqs': d.list(1, 12,
                lambda i: [d.choice(KINDS), d.int(0, n - 1), d.int(0, 30),
                    d.text(0, 12, '')]), 'nl': d.choice(['\n', '\n', '\r\n',
                        ' \n']), 'end': d.bool(), 'pipe': d.bool(),
            'alter': d.weighted(8, None, 1, 'trunc', 1, 'garbage', 1, 'blank', 1,
                'mode', 1, 'mangle', 1, 'dup'),
            'seed': d.int(0, 2 ** 20), 'draws': [d.int(0, 999) for _ in range(20)],
            'method': d.choice(['GET', 'GET', 'HEAD',
                'POST', 'DELETE', 'PUT'])}


def serve(mode, data, environ=None, pipe=False):
    """ -> (result of the start, test client or None) """
    import flask
    apps = []
    old = flask.Flask.run
    flask.Flask.run = lambda self, *a, **kw: apps.append(self)
    try:
        r = cli.run('receipt_host.py', [mode] if mode else [], data, environ,
                pipe=pipe)
    finally:
        flask.Flask.run = old
    expect(len(apps) < 2, 'server started twice')
    if not apps:
        return r, None
    apps[0].testing = False     # errors become answers, as in production
    apps[0].debug = False
    apps[0].config['PROPAGATE_EXCEPTIONS'] = False
    return r, apps[0].test_client()


def source(case, w):
    """ -> (bytes of the standard input, receipts or None if malformed,
    may it be refused although the receipts are readable) """
    a = case['alter']
    either = False
    jws = list(w.jws)
    if a == 'dup' and jws:
        jws.append(jws[case['seed'] % len(jws)])
    if case['mode'] == 'jws':
        if a == 'garbage':
            jws.insert(case['seed'] % (len(jws) + 1), ['x', 'a.b.c', '_R1-AT1_',
                '...'][case['seed'] % 4])
        elif a == 'blank':
            jws.insert(case['seed'] % (len(jws) + 1), '')
        lines = [j + case['nl'] for j in jws]
        txt = ''.join(lines)
        if not case['end'] and txt and jws[-1]:
            txt = txt.rstrip()
        if a == 'trunc' and txt.strip():
            txt = txt[:case['seed'] % len(txt)]
            jws = [l.strip() for l in txt.split('\n')]
            if jws[-1] == '':
                jws.pop()
        raw = txt.encode('utf-8')
    else:
        dep = w.dep()
        if a == 'mangle' and jws:
            dep = copy.deepcopy(dep)
            op = mangle(draws(case['draws']), dep)
            either = op in ('missing', 'badcert', 'badchain', 'extracert')
        elif a == 'dup' and jws:
            dep['Belege-Gruppe'].append(sim.group(jws[-1:]))
        elif a == 'garbage' and dep['Belege-Gruppe']:
            gs = dep['Belege-Gruppe']
            g = gs[case['seed'] % len(gs)]
            g['Belege-kompakt'].insert(case['seed'] % (1 + len(g[
                'Belege-kompakt'])), ['x', 'a.b.c', '', '...'][case['seed'] % 4])
        raw = dump(dep, dict(case['layout'], bom=case['layout'].get('bom') and not
            case.get('pipe')))    # a byte order mark needs a file
        if isinstance(raw, str):
            raw = raw.encode('utf-8')
        if a == 'trunc':
            raw = raw[:case['seed'] % len(raw)]
            return raw, None, False
        jws = []
        for g in dep['Belege-Gruppe']:
            recs = g.get('Belege-kompakt', [])
            if not isinstance(recs, list) or not all(isinstance(j, str) for j
                    in recs):
                return raw, None, either
            jws += recs
        if not jws:
            return raw, None, False
    if a == 'mode':
        return raw, None, either
    for j in jws:
        if verdict(lambda: receipt.Receipt.fromJWSString(j))[0] != 'ok':
            return raw, None, either
    return raw, jws, either


def target(r, hashes, codes, w):
    """ -> (path to ask for, hash that it asks for) """
    k, i, n, txt = r
    h = hashes[i % len(hashes)] if hashes else 'AAAAAAAAAAA'
    q = lambda s: urllib.parse.quote(s, safe='-_')
    s = {'own': h, 'pad': h + '=', 'cut': h[:-1 - n % 3], 'swap': h.swapcase(),
            'json': h + '.json', 'dot': '.' + h, 'space': [h + ' ', ' ' + h,
                h + '\n', h + '\t'][n % 4], 'low': h.lower(), 'up': h.upper(),
            'rev': h[::-1], 'long': h + h, 'std': h.replace('-', '+').replace(
                '_', '/'), 'other': sim.b64u(sim.sha256(h.encode())[:8]),
            'text': txt, 'empty': '', 'code': codes.get(h, ''), 'id':
            sim.fields(w.jws[0])[2] if w.jws else 'x', 'star': h[:5] + '*',
            'comma': h + ',' + h, 'nul': h + '\0', 'pre': h[:8], 'pct':
            ''.join('%%%02X' % ord(c) for c in h)}.get(k, h)
    if k == 'slash':
        return '/' + h + '/', None
    if k == 'sub':
        return '/x/' + h, None
    if k == 'query':
        return '/' + h + '?x=' + q(txt), h
    if k == 'pct':      # another spelling of the hash itself
        return '/' + ''.join('%%%02x' % ord(c) for c in h), h
    if k == 'empty' or s == '' or s in ('.', '..') or '/' in s:
        return '/' + q(s), None
    return '/' + q(s), s


def run(case, ctx):
    w = sim.World(case['w'])
    raw, jws, either = source(case, w)
    mode = case['mode']
    if case['alter'] == 'mode':
        mode = {'dep': 'jws', 'jws': 'dep'}[mode]
    environ = None if case['env'] is None else {'RKSV_DEP_CHUNKSIZE': str(
        case['env'])}
    r, c = serve(mode, raw, environ, case['pipe'])
    ctx.label(mode, str(case['alter']), 'started' if c else 'refused')
    if jws is None:
        expect(r.rc != 0 and c is None, 'malformed receipts and no error: %s', r)
        ctx.trivial()
        return
    if either and c is None:
        expect(r.rc != 0, 'no error status: %s', r)
        ctx.trivial()
        return
    expect(c is not None, 'server not started on well-formed receipts: %s', r)
    codes = {sim.url_hash(j): sim.qr(j) for j in jws}
    hashes = [sim.url_hash(j) for j in jws]
    found = missing = 0
    for q in [['own', i, 0, ''] for i in range(len(hashes))] + case['reqs']:
        p, h = target(q, hashes, codes, w)
        a = c.get(p)
        if h in codes:
            found += 1
            expect_eq((a.status_code, a.get_json()), (200, {'code': codes[h]}),
                    'answer to %s' % p)
            expect(a.mimetype == 'application/json', 'type %s', a.mimetype)
            if case['method'] == 'HEAD':
                expect_eq(c.head(p).status_code, 200, 'HEAD ' + p)
            elif case['method'] != 'GET':
                b = c.open(p, method=case['method'])
                expect(b.status_code >= 400, '%s answered with %s',
                        case['method'], b.status_code)
                expect_eq(c.get(p).get_json(), {'code': codes[h]},
                        'answer after a %s' % case['method'])
        else:
            missing += 1
            expect_eq(a.status_code, 404, 'status of %s' % p)
            expect_eq(a.get_json(), {'error': 'Not found'}, 'answer to %s' % p)
    if not found or not missing:
        ctx.trivial()


# ----------------------------------------- links on receipts, looked up there

def gen_links(d):
    sp = world(d, min_recs=1, max_recs=6)
    if d.bool(1, 3):
        defect(d, sp)
    n = len(sp['recs'])
    return {'w': sp, 'mode': d.choice(['dep', 'jws']), 'layout': layout(d),
            'env': d.choice([None, 1]), 'alter': None, 'seed': 0, 'nl': '\n',
            'end': True, 'trust': d.bool(3, 4), 'links': d.list(1, 6, lambda i: {
                'r': d.int(0, n - 1), 'o': d.int(0, n - 1), 'form': d.choice([
                    'path', 'path', 'anchor', 'badhash', 'wrong', 'http'])}),
            'one': d.bool(1, 3)}


def run_links(case, ctx):
    import requests
    w = sim.World(case['w'])
    raw, jws, either = source(case, w)
    if jws is None:
        ctx.trivial()
        return
    r, c = serve(case['mode'], raw, None if case['env'] is None else {
        'RKSV_DEP_CHUNKSIZE': str(case['env'])})
    expect(c is not None, 'server not started: %s', r)
    hs = [sim.url_hash(j) for j in jws]
    asked = []

    def get(u, *a, **kw):
        x = urllib.parse.urlsplit(u)
        expect_eq(x.netloc, 'host.example:5000', 'host asked')
        asked.append(u)
        p = c.get(x.path)
        res = requests.Response()
        res.status_code = p.status_code
        res._content = p.data
        return res

    ks = w.keystore(trust='all') if case['trust'] else sim.KeyStoreJson().json()
    rv = verify_receipt.ReceiptVerifier.fromKeyStore(keystore(ks))
    links, want = [], []
    for l in case['links']:
        h, o = hs[l['r']], hs[l['o']]
        f = l['form']
        u = 'http://host.example:5000/' + h
        v = verdict(lambda: rv.verifyBasicCode(sim.qr(jws[l['r']])))
        v = 'ok' if v[0] == 'ok' else str(v[2])
        if f == 'anchor':
            u += '#' + h
        elif f == 'badhash' and v == 'ok':
            u += '#' + h[:-1]
            v = None
        elif f == 'wrong' and v == 'ok':
            u += '#' + o
            v = 'ok' if h == o else None
        links.append(u)
        want.append(v)
    if case['one']:
        links, want = links[:1], want[:1]
    old = requests.get
    requests.get = get
    try:
        with cli.scratch() as tmp:
            kf = cli.write(tmp, 'ks.json', json.dumps(ks))
            if case['one']:
                r = cli.run('verify_receipt.py', ['url', kf, links[0]])
            else:
                r = cli.run('verify_receipt.py', ['url', kf], ''.join(l + '\n'
                    for l in links).encode())
            conv = cli.run('receipt.py', ['url', 'jws'], ''.join(l + '\n' for l
                in links).encode())
    finally:
        requests.get = old
    expect_eq(r.rc, 0, 'exit status: %r' % r)
    bad = sum(1 for v in want if v != 'ok')
    lines = r.text.rstrip('\n').split('\n')
    expect_eq(lines[-1], '%d of %d receipts verified successfully.' % (
        len(want) - bad, len(want)), 'report (%s)' % r.text)
    for i, v in enumerate(want):
        if v not in ('ok', None):
            expect('Line {: >3}: {}'.format(i, v) in r.text, 'line %d (%s) '
                    'missing: %s', i, v, r.text)
    expect_eq(conv.rc, 0, 'exit status of the conversion: %r' % conv)
    expect_eq(conv.text.split('\n')[:-1], [jws[l['r']] for l in case['links']][
        :len(links)], 'receipts behind the links')
    expect_eq(asked, links + links, 'links looked up')
    ctx.label('bad' if bad else 'all good', *sorted({l['form'] for l in
        case['links']}))
    if len(jws) < 2:
        ctx.trivial()


# --------------------------------------------------------------- command line

def gen_usage(d):
    return {'args': d.choice([[], ['dep', 'jws'], ['DEP'], ['qr'], [''],
        ['-h'], ['dep', '']]), 'w': world(d, min_recs=1, max_recs=2)}


def run_usage(case, ctx):
    import flask
    w = sim.World(case['w'])
    apps = []
    old = flask.Flask.run
    flask.Flask.run = lambda self, *a, **kw: apps.append(self)
    try:
        r = cli.run('receipt_host.py', case['args'], dump(w.dep()))
    finally:
        flask.Flask.run = old
    expect_eq(apps, [], 'servers started')
    expect(r.out or r.err, 'nothing said about a wrong command line')


SUBS = [Sub('serve', gen, run, 8000), Sub('links', gen_links, run_links, 2500),
        Sub('usage', gen_usage, run_usage, 30)]
