import base64
import copy
import json
import os
import re
import sys
import types

from cryptography import x509

from .. import sim, cli
from ..paths import (run_path, load_state, dump_state, keystore, dump, verdict,
        verification_state, verify_receipt, receipt, utils, DEP, Err, UNIQUE)
from ..ref import norm_state, new_reg
from ..runner import Sub, expect, expect_eq
from ..strategies import world, SERIALS, KIDS
from .c09 import defect
from .c16 import CERTS
from .c18 import cert, spki, pem, json_of, INI_IDS
from .c22 import CSV_HEAD
from .c27 import damage
from .c28 import draws

ID = 'C29'
QUICK = 1
TITLE = 'The command line tools do what they document on every input'
RULE = ('a case counts if at least two commands were run or two receipts '
        'processed; distinct by commands and data')
ASSUMPTIONS = ['line oriented tools: receipts without line breaks in their IDs, '
        'CSV without semicolons and outer white space in them',
        'a wrong command line only shows the usage; its exit status is not '
        'judged', 'resetCashRegister may or may not clear the used IDs',
        'negative register numbers are left open']


# ------------------------------------------------------ verification_state.py

EMPTYIDS = {'backendType': 'USED_RECEIPT_IDS_UNIQUE', 'backendData': []}
STATE_OPS = ['show', 'add', 'add', 'add', 'reset', 'delete', 'last', 'counter',
        'chain', 'toggle', 'start', 'start', 'ids', 'copy', 'hist', 'hist',
        'hist', 'arb', 'arbstart', 'create', 'bad', 'bad', 'usage']


def gen_state(d, real=False):
    sp = world(d, min_recs=2, max_recs=8, ndev=1, multi=False)
    n = len(sp['recs'])

    def op(i):
        k = d.choice(STATE_OPS)
        o = {'op': k, 'n': d.int(0, 3), 'r': d.int(0, n - 1), 'none':
                d.bool(1, 6), 'v': d.choice([0, 1, -1, 12345, -99999,
                    10 ** 18, 2 ** 63, -2 ** 70]), 's': d.choice(['', 'x',
                        sim.chain_value('a'), 'None ', 'ü{0}%s', '-1', '--'])}
        if k == 'ids':
            o['ids'] = d.list(0, 5, lambda i: d.choice(['1', '2', 'ä', 'a b',
                'R%d' % d.int(0, 99), '0', '00', '"', '\\', 'None', '#1',
                '// 1', '-1', '1,2', 'a\tb', "'1'"]))
        elif k == 'copy':
            o['m'], o['rot'], o['at'] = d.int(0, 4), d.int(0, 3), d.int(0, 3)
        elif k == 'hist':
            o['len'] = d.int(1, 4)
            o['key'] = d.bool(3, 4)
            o['chunk'] = d.choice([None, 0, 1, 2, 3])
            o['cuts'] = [d.int(1, 4) for _ in range(d.int(0, 2))]
        elif k in ('arb', 'arbstart'):
            o['form'] = d.choice(['jws', 'qr', 'ocr', 'csv', 'url'])
            o['key'] = d.bool()
        elif k == 'bad':
            o['how'] = d.choice(['range', 'range', 'noint', 'nofile', 'damage',
                'nojws', 'nokey', 'trunc'])
            o['seed'] = [d.int(0, 2 ** 16) for _ in range(20)]
        elif k == 'usage':
            o['how'] = d.choice(['few', 'many', 'unknown', 'format'])
        return o
    ops = d.list(2, 4 if real else 14, op)
    return {'w': sp, 'ops': ops, 'real': real}


def norm(js):
    js = norm_state(json.loads(json.dumps(js)))
    return js


def run_state(case, ctx):
    w = sim.World(case['w'])
    real = case['real']
    with cli.scratch() as tmp:
        fn = os.path.join(tmp, 'state ü.json')
        other = os.path.join(tmp, 'other.json')

        def call(*args, **kw):
            return cli.run('verification_state.py', (fn,) + args, real=real,
                    environ=kw.get('environ'))

        def good(r, what):
            expect_eq(r.rc, 0, 'exit status of %s: %r' % (what, r))
            return r

        good(call('create'), 'create')
        model = {'regs': [], 'ids': set(), 'hist': []}
        check(fn, model, 'create')
        done = 0
        for i, o in enumerate(case['ops']):
            k, n = o['op'], o['n']
            regs, hist = model['regs'], model['hist']
            what = 'command %d (%r)' % (i, o)
            ctx.label(k)
            before = cli.read(fn)
            if k == 'create':
                good(call('create'), what)
                model = {'regs': [], 'ids': set(), 'hist': []}
            elif k == 'show':
                r = good(call('show'), what)
                parts = re.split('Cash Register [0-9]+:', r.text)[1:]
                for j, reg in enumerate(regs):
                    # every value with its label
                    for label, f in (('Start Receipt', 'startReceiptJWS'),
                            ('Last Receipt', 'lastReceiptJWS'),
                            ('Last Turnover Counter', 'lastTurnoverCounter'),
                            ('Need Restore Receipt', 'needRestoreReceipt')):
                        expect(j < len(parts) and re.search('(?m)^ *' + label +
                            ': ' + re.escape(str(reg[f])) + ' *$', parts[j]),
                            '%s of register %d missing in %s', label, j,
                            r.text)
                    expect('Cash Register %d:' % j in r.text, 'register %d '
                            'missing in %r', j, r.text)
                    for f in ('startReceiptJWS', 'lastReceiptJWS',
                            'lastTurnoverCounter'):
                        expect(str(reg[f]) in r.text, '%s missing in %s', f,
                                r.text)
                expect_eq(r.text.count('Cash Register'), len(regs), 'registers '
                        'shown')
            elif k == 'add':
                r = call('addCashRegister')
                if regs and not regs[-1]['startReceiptJWS']:
                    expect(r.rc != 0, 'register added after one that was not '
                            'started')
                else:
                    good(r, what)
                    regs.append(new_reg())
                    hist.append(0)
            elif k in ('bad', 'usage'):
                bad(case, o, tmp, fn, regs, call, what, w)
                expect_eq(cli.read(fn), before, 'state file after ' + what)
                continue
            elif k == 'ids':
                p = cli.write(tmp, 'ids.txt', ''.join(x + '\n' for x in
                    o['ids']))
                good(call('readUsedReceiptIds', 'None' if o['none'] else p),
                        what)
                model['ids'] = set() if o['none'] else set(o['ids'])
            elif k in ('arb', 'arbstart'):
                j = w.jws[o['r']]
                if o['form'] == 'url' and real or o['form'] == 'csv' and \
                        not has_csv([j]):
                    continue
                link = 'http://localhost:5000/%d' % i
                f = dict(FORMS, url=lambda j: link)[o['form']](j)
                a = [o['form'], f]
                links = {link: sim.qr(j)}
                st = verification_state.ClusterState
                rec, pre = receipt.Receipt.fromJWSString(j)
                if f.strip() != f or '\0' in f:
                    continue
                if k == 'arb':
                    if o['key']:
                        a.append(cli.write(tmp, 'key.b64', sim.b64(w.aes)))
                    st = st.fromArbitraryReceipt(rec, pre, w.aes if o['key']
                            else None)
                    good(online(links, lambda: call('fromArbitraryReceipt',
                        *a)), what)
                    # the receipt this continues from is made up
                else:
                    st = st.fromArbitraryStartReceipt(rec)
                    good(online(links, lambda: call(
                        'fromArbitraryStartReceipt', *a)), what)
                reg = dump_state(st)['cashRegisters']
                got = json.loads(cli.read(fn))['cashRegisters']
                model = {'regs': reg, 'ids': set(), 'hist': [None]}
                expect_eq(got, reg, 'state from ' + what)
            elif n >= len(regs):
                if k == 'copy':
                    cli.write(tmp, 'other.json', before)
                p = cli.write(tmp, 'dep.json', dump({'Belege-Gruppe': [
                    sim.group(w.jws[:1])]}))
                a = {'reset': ['resetCashRegister', n], 'delete': [
                    'deleteCashRegister', n], 'last': ['setLastReceiptJWS', n,
                        w.jws[0]], 'counter': ['setLastTurnoverCounter', n, 5],
                    'chain': ['setChainNextTo', n, 'x'], 'toggle': [
                        'toggleNeedRestoreReceipt', n], 'start': [
                        'setStartReceiptJWS', n, w.jws[0]], 'copy': [
                        'copyCashRegister', n, other, 0], 'hist': [
                        'updateCashRegister', n, p]}[k]
                r = call(*a)
                expect(r.rc != 0, 'no error for register %d of %d: %s', n,
                        len(regs), what)
                expect_eq(cli.read(fn), before, 'state file after ' + what)
                continue
            elif k == 'reset':
                good(call('resetCashRegister', n), what)
                regs[n] = new_reg()
                hist[n] = 0
                model['ids'] = None
            elif k == 'delete':
                good(call('deleteCashRegister', n), what)
                del regs[n]
                del hist[n]
            elif k in ('last', 'start'):
                f = {'last': 'lastReceiptJWS', 'start': 'startReceiptJWS'}[k]
                v = None if o['none'] else w.jws[o['r']]
                good(call('s' + f.replace('last', 'etLast').replace('start',
                    'etStart'), n, v), what)
                regs[n][f] = v
                hist[n] = None
            elif k == 'chain':
                v = None if o['none'] else o['s']
                good(call('setChainNextTo', n, v), what)
                regs[n]['chainNextTo'] = v
                hist[n] = None
            elif k == 'counter':
                good(call('setLastTurnoverCounter', n, o['v']), what)
                regs[n]['lastTurnoverCounter'] = o['v']
                hist[n] = None
            elif k == 'toggle':
                good(call('toggleNeedRestoreReceipt', n), what)
                regs[n]['needRestoreReceipt'] = \
                        not regs[n]['needRestoreReceipt']
                hist[n] = None
            elif k == 'copy':
                # from a state with the same registers in another order and
                # one more
                src = [(dict(x), h) for x, h in zip(regs, hist)]
                src = src[o['rot']:] + src[:o['rot']]
                src.insert(o['at'], (dict(new_reg(), lastReceiptJWS=w.jws[
                    o['r']], lastTurnoverCounter=o['v']), None))
                m = o['m'] % len(src)
                raw = json.dumps({'cashRegisters': [x for x, h in src],
                    'usedReceiptIds': dict(EMPTYIDS, backendData=['q'])}
                    ).encode()
                cli.write(tmp, 'other.json', raw)
                good(call('copyCashRegister', n, other, m), what)
                regs[n], hist[n] = src[m]
                ctx.label('copied own' if m == n else 'copied other')
                expect_eq(cli.read(other), raw, 'source file after ' + what)
            elif k == 'hist':
                # the next receipts of the history
                a = hist[n]
                lib = a is None
                if lib:
                    a = o['r']
                b = min(len(w.jws), a + o['len'])
                js = w.jws[a:b]
                if not js:
                    continue
                cuts = sorted({min(len(js), c) for c in o['cuts']})
                gs = [js[x:y] for x, y in zip([0] + cuts, cuts + [len(js)])]
                dep = {'Belege-Gruppe': [sim.group(g) for g in gs if g]}
                args = [n, cli.write(tmp, 'dep.json', dump(dep))]
                key = None
                if o['key']:
                    args.append(cli.write(tmp, 'key.b64', sim.b64(w.aes) +
                        '\n'))
                    key = w.aes
                good(call('updateCashRegister', *args, environ=None if
                    o['chunk'] is None else {'RKSV_DEP_CHUNKSIZE':
                        str(o['chunk'])}), what)
                st = load_state({'cashRegisters': regs, 'usedReceiptIds':
                    EMPTYIDS})
                if lib:
                    for g in gs:
                        st.cashRegisters[n].updateFromDEPGroup([base(x) for x
                            in g], key)
                else:
                    hist[n] = b
                    one = load_state({'cashRegisters': [regs[n]],
                        'usedReceiptIds': EMPTYIDS})
                    dep = {'Belege-Gruppe': [sim.group(js)]}
                    v = run_path(dep, w.keystore(trust='all'), None, DEP, one,
                            0)
                    expect_eq(v[0], 'ok', 'part of a conforming history')
                    reg = v[1]['cashRegisters'][0]
                    if key is not None:
                        reg['lastTurnoverCounter'] = w.counters[b - 1]
                        if not std(w, a, b) and regs[n][
                                'lastTurnoverCounter'] != (w.counters[a - 1]
                                        if a else 0):
                            # not known before
                            reg['lastTurnoverCounter'] = None
                    st = load_state({'cashRegisters': regs, 'usedReceiptIds':
                        EMPTYIDS})
                    got = json.loads(cli.read(fn))['cashRegisters'][n]
                    if reg['lastTurnoverCounter'] is None:
                        reg['lastTurnoverCounter'] = got['lastTurnoverCounter']
                    regs[n] = reg
                    st = None
                if st is not None:
                    regs[n] = dump_state(st)['cashRegisters'][n]
            check(fn, model, what)
            done += 1
        if done < 2:
            ctx.trivial()


def online(links, f):
    """ f() with receipts under links """
    import requests

    def get(u, *a, **kw):
        r = requests.Response()
        r.status_code = 200 if u in links else 404
        r._content = json.dumps({'code': links.get(u)}).encode()
        return r
    old = requests.get
    requests.get = get
    try:
        return f()
    finally:
        requests.get = old


def std(w, a, b):
    """ does jws[a:b] contain a receipt with an encrypted counter """
    no = (sim.b64(b'TRA'), sim.b64(b'STO'))
    return any(sim.fields(j)[9] not in no for j in w.jws[a:b])


def base(j):
    from ..paths import depparser
    return depparser.shrinkDEPReceipt(j)


def check(fn, model, what):
    js = json.loads(cli.read(fn).decode('utf-8'))
    expect_eq(sorted(js), ['cashRegisters', 'usedReceiptIds'], 'elements of '
            'the state after ' + what)
    expect_eq(js['cashRegisters'], model['regs'], 'registers after ' + what)
    u = js['usedReceiptIds']
    if model['ids'] is None:
        model['ids'] = set(u['backendData'])
    expect_eq(sorted(u['backendData']), sorted(model['ids']), 'used IDs after '
            + what)
    load_state(js)


def bad(case, o, tmp, fn, regs, call, what, w):
    how, n = o['how'], o['n']
    if o['op'] == 'usage':
        a = {'few': ['setLastReceiptJWS', 0], 'many': ['addCashRegister', 0],
                'unknown': ['frobnicate'], 'format': ['fromArbitraryReceipt',
                    'xyz', w.jws[0]]}[how]
        r = call(*a)
        expect(r.out or r.err, 'nothing said about a wrong command line')
        return
    before = cli.read(fn)
    if how == 'range':
        a = ['setLastTurnoverCounter', len(regs) + n, 5]
    elif how == 'noint':
        a = ['setLastTurnoverCounter', n, ['x', '1.5', '', '1e3'][n]]
        if not regs:
            a = ['deleteCashRegister', 'x']
    elif how == 'nofile':
        a = ['readUsedReceiptIds', os.path.join(tmp, 'missing')]
    elif how == 'nojws':
        a = ['fromArbitraryReceipt', ['jws', 'qr', 'ocr', 'csv'][n],
                ['x', '', '_R1-AT1', 'a.b.c'][n]]
    elif how == 'nokey':
        a = ['fromArbitraryReceipt', 'jws', w.jws[0], os.path.join(tmp,
            'missing')]
    elif how == 'trunc':
        raw = dump({'Belege-Gruppe': [sim.group(w.jws)]})
        p = cli.write(tmp, 'dep.json', raw[:o['seed'][0] % len(raw)])
        a = ['updateCashRegister', 0, p]
        if not regs:
            return
    else:
        js = damage(draws(o['seed']), json.loads(before))
        v = verdict(lambda: load_state(js))
        if v[0] == 'ok':
            return
        cli.write(tmp, os.path.basename(fn), json.dumps(js))
        b2 = cli.read(fn)
        r = call(['show', 'addCashRegister', 'show', 'addCashRegister'][n])
        expect(r.rc != 0, 'no error for a malformed state (%s)', v[1:])
        expect_eq(cli.read(fn), b2, 'state file after ' + what)
        cli.write(tmp, os.path.basename(fn), before)
        return
    r = call(*a)
    expect(r.rc != 0, 'no error status: %s %r: %r', what, a, r)


# -------------------------------------------------------------- key_store.py

def gen_store(d, real=False):
    ini = d.bool()

    def op(i):
        k = d.choice(['cert', 'cert', 'key', 'key', 'del', 'list', 'show',
            'set', 'set', 'unset', 'create', 'bad', 'bad', 'usage'] + (
                ['ini', 'ini'] if ini else []))
        o = {'op': k, 'k': d.choice([1, 2, 3, 4, sim.RSA]), 's': d.int(0,
            len(SERIALS) - 1), 'id': d.choice(INI_IDS), 'd': d.int(0, 12),
            'a': d.int(0, 3)}
        if k == 'bad':
            o['how'] = d.choice(['del', 'pem', 'keypem', 'b64', 'short', 'empty',
                'nofile', 'damage', 'ini', 'wrong'])
            o['seed'] = [d.int(0, 2 ** 16) for _ in range(20)]
        return o
    return {'ops': d.list(2, 5 if real else 14, op), 'real': real, 'ini': ini}


def run_store(case, ctx):
    real = case['real']
    with cli.scratch() as tmp:
        fn = os.path.join(tmp, 'ks.json')

        def call(*args, **kw):
            return cli.run('key_store.py', (kw.get('file', fn),) + args,
                    kw.get('stdin', b''), real=real)
        r = call('create')
        expect_eq((r.rc, r.out), (0, b''), 'create: %r' % r)
        model, aes = {}, None
        for i, o in enumerate(case['ops']):
            k = o['op']
            what = 'command %d (%r)' % (i, o)
            ctx.label(k)
            before = cli.read(fn)
            out = b''
            same = False
            if k == 'create':
                r = call('create')
                model, aes = {}, None
            elif k == 'cert':
                der = cert([o['k'], o['s']])
                p = cli.write(tmp, 'c.pem', pem('CERTIFICATE', der))
                r = call('add', p)
                model[sim.key_id(SERIALS[o['s']])] = (spki(o['k']), der)
            elif k == 'key':
                p = cli.write(tmp, 'k.pem', pem('PUBLIC KEY', spki(o['k'])))
                r = call('add', p, o['id'])
                model[o['id']] = (spki(o['k']), None)
            elif k == 'del':
                if not model:
                    continue
                kid = sorted(model)[o['d'] % len(model)]
                r = call('del', kid)
                del model[kid]
            elif k == 'list':
                r = call('list')
                expect_eq(sorted(r.text.splitlines()), sorted(model), 'list')
                out = r.out
                same = True
            elif k == 'show':
                r = call('showSymmetricKey')
                out = r.out
                same = True
                if aes is None:
                    expect('No symmetric key' in r.text, 'shown: %r', r)
                else:
                    expect_eq(r.text.strip(), sim.b64(aes), 'symmetric key')
            elif k == 'set':
                aes = sim.aes_key(o['s'])
                r = call('setSymmetricKey', stdin=[sim.b64(aes).encode(),
                    sim.b64(aes).encode() + b'\n', b' ' + sim.b64(aes).encode()
                    + b'  \r\n', sim.b64(aes).encode() + b'\nxyz\n'][o['a']])
            elif k == 'unset':
                aes = None
                r = call('delSymmetricKey')
            elif k == 'ini':
                r = call('toLegacyIni')
                out = r.out
                expect_eq(r.rc, 0, what)
                r2 = call('fromLegacyIni', file=fn + '2', stdin=r.out)
                expect_eq((r2.rc, r2.out), (0, b''), what + repr(r2))
                js = json.loads(cli.read(fn + '2').decode())
                expect_eq(js['certificateOrPublicKeyMap'], json_of(model),
                        'key store after writing and reading INI')
                expect(not js.get('base64AESKey'), 'symmetric key from INI')
                if o['a'] == 0:
                    r2 = call('fromLegacyIni', stdin=r.out)
                    expect_eq((r2.rc, r2.out), (0, b''), what + repr(r2))
                    aes = None
                else:
                    same = True
            elif k == 'usage':
                r = call(*[['frob'], ['del'], ['list', 'x'], ['add', 'a', 'b',
                    'c']][o['a']])
                out = r.out
                expect(r.out or r.err, 'nothing said about the command line')
                same = True
            else:
                bad_store(o, tmp, fn, call, model, what)
                expect_eq(cli.read(fn), before, 'key store after ' + what)
                continue
            expect_eq((r.rc, r.out), (0, out), what + ': %r' % r)
            if same:
                expect_eq(cli.read(fn), before, 'key store after ' + what)
            js = json.loads(cli.read(fn).decode('utf-8'))
            expect_eq(js['certificateOrPublicKeyMap'], json_of(model),
                    'entries after ' + what)
            expect_eq(js.get('base64AESKey'), None if aes is None else
                    sim.b64(aes), 'symmetric key after ' + what)


def bad_store(o, tmp, fn, call, model, what):
    how, a = o['how'], o['a']
    p = os.path.join(tmp, 'x.pem')
    judged = True
    kw = {}
    if how == 'del':
        kid = o['id'] + '?'
        args = ['del', kid]
        judged = False      # deleting what is not there: no harm
    elif how in ('pem', 'keypem'):
        body = pem('CERTIFICATE', cert([1, 1]))
        cut = body[:o['seed'][0] % (len(body) - 30)]
        cli.write(tmp, 'x.pem', ['', 'x', cut, pem('CERTIFICATE',
            b'123')][a])
        args = ['add', p] + (['U:1'] if how == 'keypem' else [])
    elif how == 'wrong':
        # a key where a certificate is expected and the reverse
        if a % 2:
            cli.write(tmp, 'x.pem', pem('PUBLIC KEY', spki(1)))
            args = ['add', p]
        else:
            cli.write(tmp, 'x.pem', pem('CERTIFICATE', cert([1, 1])))
            args = ['add', p, 'U:1']
    elif how in ('b64', 'short'):
        args = ['setSymmetricKey']
        kw['stdin'] = [b'A', b'%%%%', b'AAAA', b'?'][a] + b'\n' \
                if how == 'b64' else sim.b64(b'x' * [16, 31, 33, 1][a]
                        ).encode()
        judged = False
    elif how == 'empty':
        args = ['setSymmetricKey']
        kw['stdin'] = [b'', b'\n', b'  \n', b''][a]
        judged = False
    elif how == 'nofile':
        args = [['add', p + 'x'], ['add', p + 'x', 'U:1'], ['list'],
                ['del', 'x']][a]
        if a >= 2:
            kw['file'] = fn + 'x'
    elif how == 'ini':
        args = ['fromLegacyIni']
        kw['stdin'] = [b'[public_keys', b'x', b'[certificates]\n1 = x\n',
                b'[public_keys]\nU:1 = AAAA\n'][a]
        if a >= 2:
            judged = False
    else:
        js = json.loads(cli.read(fn).decode())
        js['base64AESKey'] = None
        js.pop('base64AESKey')
        js = damage(draws(o['seed']), js)
        v = verdict(lambda: keystore(js))
        if v[0] == 'ok':
            return
        cli.write(tmp, 'y.json', json.dumps(js))
        old = cli.read(os.path.join(tmp, 'y.json'))
        r = call(*[['list'], ['delSymmetricKey'], ['toLegacyIni'], [
            'showSymmetricKey']][a], file=os.path.join(tmp, 'y.json'))
        expect(r.rc != 0, 'no error for a malformed key store')
        expect_eq(cli.read(os.path.join(tmp, 'y.json')), old, 'file')
        return
    if not judged and how in ('short', 'ini', 'b64'):
        # which keys are refused is left open; work on a copy
        cli.write(tmp, 'z.json', cli.read(fn))
        kw['file'] = os.path.join(tmp, 'z.json')
        old = cli.read(kw['file'])
        r = call(*args, **kw)
        if r.rc:
            expect_eq(cli.read(kw['file']), old, 'key store after a failed '
                    'command (%s)' % what)
        return
    r = call(*args, **kw)
    if judged:
        expect(r.rc != 0, 'no error status: %s %r: %r', what, args, r)
    elif how == 'empty':
        expect_eq(r.rc, 0, what)
    if kw.get('file'):
        expect(not os.path.exists(kw['file']), 'file created by a failed '
                'command')


# ------------------------------------------------------------- DEP pipelines

def gen_pipe(d, real=False):
    sp = world(d, min_recs=1, max_recs=14, multi=d.bool(),
            id_style='csv' if d.bool() else None)
    n = len(sp['recs'])
    dep = sim.World(sp).dep()
    # further groups of the same devices
    ops = []
    for _ in range(d.int(1, 2 if real else 4)):
        k = d.choice(['split', 'split', 'split', 'csv', 'merge', 'nomerge',
            'certs', 'bad', 'state'])
        ops.append({'op': k, 'n': d.choice([1, 2, 3, d.int(1, n + 1), 1000]),
            'chunk': d.choice([None, None, 0, 1, 2, 5]), 'nomerge': d.bool(1,
                4), 'pipe': d.bool(1, 3), 'seed': d.int(0, 2 ** 16),
            'which': d.choice(['split', 'merge', 'csv', 'json', 'certs', 'size']),
            'files': d.choice([[0, 1], [1, 0], [0, 1], [1, 0], [0, 0], [0, 1,
                0], [1, 1, 0], [0, 1, 1, 0]])})
    return {'w': sp, 'ops': ops, 'real': real, 'layout': {'order': d.int(0, 5),
        'indent': d.choice([None, 1]), 'ascii': d.bool(), 'extra':
        d.bool(1, 4)}, 'empty': d.bool(1, 4)}


def groups(dep):
    return [(list(g['Belege-kompakt']), g['Signaturzertifikat'],
        list(g['Zertifizierungsstellen'])) for g in dep['Belege-Gruppe']]


def merged(gs):
    out = []
    for r, c, ch in gs:
        if not r:
            continue
        if out and out[-1][1:] == (c, ch):
            out[-1][0].extend(r)
        else:
            out.append((list(r), c, ch))
    return out


def flat(gs):
    return [(r,) + tuple(g[1:]) for g in gs for r in g[0]]


def has_csv(js):
    return all(not any(c in f for c in ';\n\r') and f == f.strip() for j in js
            for f in sim.fields(j))


def run_pipe(case, ctx):
    w = sim.World(case['w'])
    real = case['real']
    dep = w.dep()
    if case['empty']:
        dep['Belege-Gruppe'].insert(1, sim.group([], '', []))
    cur = groups(dep)
    raw = dump(dep, dict(case['layout'], order=case['layout']['order'] if not
        any(o['pipe'] for o in case['ops']) and not real else 0))
    ks = w.keystore(trust='all')
    if len(w.jws) < 2:
        ctx.trivial()
    with cli.scratch() as tmp:
        for i, o in enumerate(case['ops']):
            k = o['op']
            e = None if o['chunk'] is None else {'RKSV_DEP_CHUNKSIZE':
                    str(o['chunk'])}
            what = 'step %d (%r)' % (i, o)
            ctx.label(k)
            d = os.path.join(tmp, 'd%d' % i)
            if k == 'bad':
                bad_pipe(o, tmp, d, raw, e, real, what)
                continue
            if k in ('split', 'state'):
                if o['seed'] % 2:
                    os.mkdir(d)
                r = cli.run('split.py', [o['n'], d], raw, None, real, tmp,
                        o['pipe'])
                expect_eq((r.rc, r.out), (0, b''), what + ' %r' % r)
                files = cli.tree(d)
                m = len(files)
                expect_eq(sorted(files), sorted('dep-export%d.json' % x
                    for x in range(m)), 'files of ' + what)
                parts = [json.loads(files['dep-export%d.json' % x].decode())
                        for x in range(m)]
                expect_eq([f for p in parts for f in flat(groups(p))],
                        flat(cur), 'receipts in all files of ' + what)
                sizes = [len(flat(groups(p))) for p in parts]
                total = len(flat(cur))
                full, rest = divmod(total, o['n'])
                expect_eq([s for s in sizes if s], [o['n']] * full + ([rest] if
                    rest else []), 'receipts per file of ' + what)
                expect_eq([x for x in [[g for g in groups(p) if g[0]] for p in
                    parts] if x], cut_groups(cur, o['n']), 'groups per file of '
                    + what)
                if k == 'state':
                    check_state(w, ks, d, m, real, what, ctx)
                names = [os.path.join(d, 'dep-export%d.json' % x)
                        for x in range(m)]
                if m >= 2:
                    r = cli.run('merge.py', (['nomerge'] if o['nomerge'] else
                        []) + names, b'', e, real, tmp)
                    expect_eq(r.rc, 0, 'merging after %s %r' % (what, r))
                    got = groups(json.loads(r.text))
                    if o['nomerge']:
                        want = [g for p in parts for g in groups(p)]
                        if o['chunk']:
                            got, want = merged(got), merged(want)
                    else:
                        want = merged(cur)
                    nz = lambda gs: [g for g in gs if g[0]]
                    expect_eq(nz(got), nz(want), 'merged DEP after ' + what)
                    cur = groups(json.loads(r.text))
                    raw = r.out
            elif k in ('merge', 'nomerge'):
                a = cli.write(tmp, 'a.json', raw)
                b = cli.write(tmp, 'b.json', dump(w.dep()))
                pick = o['files']
                two = [cur, groups(w.dep())]
                names = [(a, b)[x] for x in pick]
                r = cli.run('merge.py', (['nomerge'] if k == 'nomerge' else [])
                        + names, b'', e, real, tmp)
                expect_eq(r.rc, 0, '%s %r' % (what, r))
                got = groups(json.loads(r.text))
                want = sum([two[x] for x in pick], [])
                expect_eq(flat(got), flat(want), 'receipts after ' + what)
                if k == 'merge':
                    want = merged(want)
                nz = lambda gs: [g for g in gs if g[0]]
                if k == 'merge' or not o['chunk']:
                    expect_eq(nz(got), nz(want), 'groups after ' + what)
            elif k == 'csv':
                js = [expand(f[0]) for f in flat(cur)]
                if not has_csv(js):
                    continue
                r = cli.run('convert.py', ['json2csv'], raw, e, real, tmp,
                        o['pipe'])
                expect_eq(r.rc, 0, '%s %r' % (what, r))
                expect_eq(r.text.split('\n'), [CSV_HEAD] + [sim.csv(j) for j in
                    js] + [''], 'CSV from ' + what)
                csv = r.out
                if o['seed'] % 3 == 0:
                    csv = csv.replace(b'\n', b'\r\n')
                elif o['seed'] % 3 == 1:
                    csv = csv[:-1]      # no line end at the end
                r = cli.run('convert.py', ['csv2json'], csv, e, real, tmp)
                expect_eq(r.rc, 0, '%s %r' % (what, r))
                got = groups(json.loads(r.text))
                cur = [([f[0] for f in flat(cur)], '', [])]
                expect_eq(got, cur, 'DEP after ' + what)
                raw = r.out
            elif k == 'certs':
                check_certs(w, ks, cur, raw, d, e, tmp, real, o, what)
        # the receipts are all still there
        js = [expand(f[0]) for f in flat(cur)]
        expect_eq(js, w.jws, 'receipts at the end')
        dep = json.loads(raw)
        g = [x for x in dep['Belege-Gruppe'] if x['Belege-kompakt']]
        if len(g) > 1 and any(x['Signaturzertifikat'] == '' for x in g):
            return      # F20, see C09
        v = run_path(dep, ks, w.aes, DEP)
        expect_eq(v[0], 'ok', 'verdict at the end (%r)' % (v[1:],))


def expand(r):
    return r


def cut_groups(gs, n):
    """ the groups of each file with n receipts """
    out = []
    left = 0
    for r, c, ch in gs:
        while r:
            if not left:
                out.append([])
                left = n
            out[-1].append((r[:left], c, ch))
            k = len(out[-1][-1][0])
            left -= k
            r = r[k:]
    return out


def check_state(w, ks, d, m, real, what, ctx):
    """ the parts continue each other """
    ksf = cli.write(d, '../ks.json', json.dumps(dict(ks, base64AESKey=sim.b64(
        w.aes))))
    st = cli.run('verify.py', ['state'], real=real).out
    whole = run_path(w.dep(), ks, w.aes, DEP)
    expect_eq(whole[0], 'ok', 'conforming DEP')
    for x in range(m):
        fn = os.path.join(d, 'dep-export%d.json' % x)
        js = json.loads(cli.read(fn).decode())
        g = [y for y in js['Belege-Gruppe'] if y['Belege-kompakt']]
        if not g:
            continue
        if len(g) > 1 and any(y['Signaturzertifikat'] == '' for y in g):
            return      # F20
        r = cli.run('verify.py', ['state'] + (['continue'] if x else []) + [
            ksf, fn], st, real=real)
        expect_eq(r.rc, 0, 'part %d of %s: %r' % (x, what, r))
        st = r.out
    expect_eq(norm_state(json.loads(st)), whole[1], 'state after all parts of '
            + what)
    ctx.label('verified in parts')


def check_certs(w, ks, cur, raw, d, e, tmp, real, o, what):
    if o['seed'] % 3 == 0:
        # there is already something under one of the names
        ids = [sim.key_id(x509.load_der_x509_certificate(base64.b64decode(g[1])
            ).serial_number) for g in cur if g[0] and g[1]]
        if ids:
            os.mkdir(d)
            cli.write(d, ids[o['seed'] // 3 % len(ids)] + '.crt', 'old\n' * 900)
    r = cli.run('cert_extract.py', [d], raw, e, real, tmp, o['pipe'])
    expect_eq((r.rc, r.out), (0, b''), '%s %r' % (what, r))
    want = {}
    for rs, c, ch in cur:
        if not rs:
            continue
        for b in list(ch) + ([c] if c else []):
            der = base64.b64decode(b)
            n = x509.load_der_x509_certificate(der).serial_number
            want.setdefault(sim.key_id(n) + '.crt', set()).add(der)
    files = cli.tree(d)
    expect_eq(sorted(files), sorted(want), 'files of ' + what)
    store = os.path.join(tmp, 'new.json')
    r = cli.run('key_store.py', [store, 'create'], b'', None, real)
    some = sorted(files)
    for f in some:
        t = files[f].decode('ascii')
        expect(t.startswith('-----BEGIN CERTIFICATE-----\n') and
                t.rstrip().endswith('-----END CERTIFICATE-----'), 'PEM frame '
                'of %s: %r', f, t)
        der = base64.b64decode(''.join(t.strip().split('\n')[1:-1]))
        expect(der in want[f], 'content of %s', f)
        if not real or f == some[0]:
            r = cli.run('key_store.py', [store, 'add', os.path.join(d, f)],
                    b'', None, real)
            expect_eq(r.rc, 0, 'adding %s: %r' % (f, r))
    if not real:
        js = json.loads(cli.read(store).decode())
        expect_eq(sorted(js['certificateOrPublicKeyMap']), sorted(f[:-4] for f
            in some), 'key store from the extracted certificates')


def bad_pipe(o, tmp, d, raw, e, real, what):
    text = raw.strip()
    cut = text[:o['seed'] % len(text)]
    k = o['which']
    if k == 'size':
        # no such size: the usage, nothing written
        before = cli.tree(tmp)
        r = cli.run('split.py', [[0, -1, '-5', '0'][o['seed'] % 4], d], raw, e,
                real, tmp)
        expect('sage' in r.text, 'no usage for %s: %r', what, r)
        expect_eq(cli.tree(tmp), before, 'files after ' + what)
        return
    if k == 'split':
        r = cli.run('split.py', [o['n'], d], cut, e, real, tmp)
    elif k == 'merge':
        a = cli.write(tmp, 'a.json', cut)
        b = cli.write(tmp, 'b.json', raw)
        r = cli.run('merge.py', [a, b] if o['nomerge'] else [b, a], b'', e,
                real, tmp)
    elif k == 'csv':
        lines = [b'x;y', b'', b'R1-AT1;a;b', b'\xc3\xa4'][o['seed'] % 4]
        r = cli.run('convert.py', ['csv2json'], b'head\n' + lines + b'\n', e,
                real, tmp)
    elif k == 'json':
        r = cli.run('convert.py', ['json2csv'], cut, e, real, tmp)
    else:
        r = cli.run('cert_extract.py', [d], cut, e, real, tmp)
    expect(r.rc != 0, 'no error status for malformed input: %s %r', what, r)


# ------------------------------------------------- receipt.py, verify_receipt

FORMS = {'jws': lambda j: j, 'qr': sim.qr, 'ocr': sim.ocr, 'csv': sim.csv}


def gen_receipts(d, real=False):
    sp = world(d, min_recs=1, max_recs=6, multi=False, id_style='csv')
    n = len(sp['recs'])
    if d.bool():
        defect(d, sp)

    def line(i):
        return {'r': d.int(0, n - 1), 'alter': d.choice([None] * 5 + ['sig',
            'field', 'garbage', 'cut', 'empty', 'other']), 'n': d.int(0, 99),
            'pre': d.choice(['', '', ' ', '\t']), 'post': d.choice(['', '',
                ' ', '\r'])}
    return {'w': sp, 'lines': d.list(0, 6, line), 'in': d.choice(sorted(FORMS)
        + ['url'] * (not real)), 'out': d.choice(sorted(FORMS) + ['url']),
        'trust': d.bool(3, 4), 'arg': d.bool(1, 4), 'real': real, 'end':
        d.bool()}


def canonical(j):
    f = sim.fields(j)
    for x in (f[9], f[11]):
        try:
            if sim.b64(base64.b64decode(x)) != x:
                return False
        except Exception:
            return False
    return True


def lines_of(case, w):
    """ -> [(line, JWS or None for an unreadable one)] """
    form = case['in']
    out = []
    for l in case['lines']:
        j = w.jws[l['r']]
        a = l['alter']
        if a == 'sig':
            h, p, s = j.split('.')
            s = bytearray(sim.unb64u(s))
            if not s:
                continue
            s[l['n'] % len(s)] ^= 1
            j = '.'.join([h, p, sim.b64u(bytes(s))])
        elif a == 'field':
            f = sim.fields(j)
            f[1] += 'x'
            j = '.'.join([j.split('.')[0], sim.b64u(('_' + '_'.join(f)).encode(
                )), j.split('.')[2]])
        if not has_csv([j]) or not canonical(j):
            continue
        s = FORMS['qr' if form == 'url' else form](j)
        if a == 'garbage':
            s, j = ['x', '_R1', ';;;', 'a.b.c'][l['n'] % 4], None
        elif a == 'cut':
            s, j = s[:l['n'] % max(1, len(s) - 90)], None
        elif a == 'empty':
            s, j = '', None
        elif a == 'other':
            o = sorted(FORMS)[l['n'] % 4]
            if o != form and not (form == 'url' and o == 'qr'):
                s, j = FORMS[o](w.jws[l['r']]), None
        if any(c in s for c in '\r\n') or s != s.strip():
            continue
        out.append((s, j, l))
    return out


def run_receipts(case, ctx):
    import requests
    w = sim.World(case['w'])
    real, form = case['real'], case['in']
    rows = lines_of(case, w)
    if len(rows) < 2:
        ctx.trivial()
    ctx.label(form, '->' + case['out'])
    if form == 'url':
        # the link of row i
        codes = {}
        texts = []
        for i, (s, j, l) in enumerate(rows):
            u = 'http://host/%d#%s' % (i, sim.url_hash(j) if j else 'x' * 11)
            codes[u] = s
            texts.append(u)
    else:
        texts = [s for s, j, l in rows]
    full = ''.join(l['pre'] + s + l['post'] + '\n' for s, (_, j, l) in
            zip(texts, rows))
    if not case['end']:
        full = full[:-1]
        if rows and not texts[-1] + rows[-1][2]['pre'] + rows[-1][2]['post']:
            rows, texts = rows[:-1], texts[:-1]

    def get(u, *a, **kw):
        r = requests.Response()
        r.status_code = 200
        r._content = json.dumps({'code': codes[u]}).encode()
        return r
    old = requests.get
    if not real:
        requests.get = get
    try:
        # conversion
        r = cli.run('receipt.py', [form, case['out']], full.encode('utf-8'),
                None, real)
        conv = dict(FORMS, url=sim.url_hash)[case['out']]
        want = []
        for s, j, l in rows:
            if j is None or not readable(j):
                break
            want.append(j)
        broken = len(want) < len(rows)
        lines = r.text.split('\n')
        expect_eq(lines.pop(), '', 'end of the output')
        ws = [conv(j) for j in want]
        # JWS with other headers lose those in other formats: not generated
        expect_eq(lines[:len(ws)], ws, 'converted receipts (%s to %s)' % (form,
            case['out']))
        if broken and rows[len(want)][1] is None:
            expect(r.rc != 0, 'no error status for an unreadable receipt: %s',
                    r)
        if not broken:
            expect_eq((r.rc, len(lines)), (0, len(ws)), 'exit status, lines '
                    '%r' % r)

        # verification
        ks = w.keystore(trust='all') if case['trust'] else \
                sim.KeyStoreJson().json()
        with cli.scratch() as tmp:
            kf = cli.write(tmp, 'ks.json', json.dumps(ks))
            if case['arg'] and texts and '\0' not in texts[0]:
                texts, rows = texts[:1], rows[:1]
                r = cli.run('verify_receipt.py', [form, kf, rows[0][2]['pre'] +
                    texts[0]], b'', None, real)
            else:
                r = cli.run('verify_receipt.py', [form, kf], full.encode(
                    'utf-8'), None, real)
        rv = verify_receipt.ReceiptVerifier.fromKeyStore(keystore(ks))
        from librksv import url_receipt_helpers
        f = {'jws': rv.verifyJWS, 'qr': rv.verifyBasicCode, 'ocr':
                rv.verifyOCRCode, 'csv': rv.verifyCSV, 'url': lambda u:
                url_receipt_helpers.getAndVerifyReceiptURL(rv, u) if not real
                else None}[form]
        exp = []
        good = 0
        for i, s in enumerate(texts):
            v = verdict(lambda: f(s))
            if v[0] == 'ok':
                good += 1
            else:
                exp.append('Line {: >3}: {}'.format(i, v[2]))
        exp.append('%d of %d receipts verified successfully.' % (good,
            len(texts)))
    finally:
        requests.get = old
    expect_eq(r.rc, 0, 'exit status: %r' % r)
    expect_eq(r.text.rstrip('\n').split('\n'), exp, 'report on the receipts')
    n = sum(1 for (s, j, l) in rows[:len(texts)] if j and l['alter'] is None)
    ctx.label('some good' if good else 'none good')
    if case['trust'] and not any(x.get('o') for x in case['w']['recs']) \
            and not any(x['b'] for x in case['w']['recs']):
        want = sum(1 for s, j, l in rows if j and j in w.jws)
        expect_eq(good, want, 'number of valid receipts')


def readable(j):
    return verdict(lambda: receipt.Receipt.fromJWSString(j))[0] == 'ok'


# ------------------------------------------------------- wrong command lines

# every documented command line: K key store, D DEP file, S state, P PEM
# certificate, A AES key file, O output directory, J receipt, F text file
LINES = {
    'verification_state.py': ['S create', 'S show', 'S addCashRegister',
        'S resetCashRegister 0', 'S deleteCashRegister 0',
        'S copyCashRegister 0 S 0', 'S updateCashRegister 0 D',
        'S updateCashRegister 0 D A', 'S setLastReceiptJWS 0 J',
        'S setLastTurnoverCounter 0 5', 'S setChainNextTo 0 x',
        'S toggleNeedRestoreReceipt 0', 'S setStartReceiptJWS 0 J',
        'S readUsedReceiptIds F', 'S fromArbitraryReceipt jws J',
        'S fromArbitraryReceipt jws J A',
        'S fromArbitraryStartReceipt jws J'],
    'key_store.py': ['K create', 'K list', 'K add P', 'K add P U:1',
        'K del U:1', 'K showSymmetricKey', 'K setSymmetricKey',
        'K delSymmetricKey', 'K toLegacyIni', 'K fromLegacyIni'],
    'convert.py': ['json2csv', 'csv2json'],
    'cert_extract.py': ['O'],
    'split.py': ['1 O'],
    'merge.py': ['D D', 'nomerge D D'],
    'receipt.py': ['jws qr', 'qr jws'],
    'verify_receipt.py': ['jws K', 'jws K J'],
    'verify.py': ['K D', 'json K D', 'par 1 K D', 'chunksize 3 K D',
        'state K D', 'state continue K D', 'state 0 K D',
        'state continue par 1 chunksize 0 json K D',
        'par 1 chunksize 2 json K D', 'state par 1 json K D'],
}


def gen_usage(d):
    tool = d.choice(['verification_state.py'] * 3 + ['verify.py'] * 2 + sorted(
        LINES))
    line = d.choice(LINES[tool])
    n = len(line.split())
    k = d.int(0, 9)
    if k < 4:
        how = ['more', d.int(1, 4)]
    elif k < 8:
        how = ['less', d.int(1, n)]
    else:
        how = ['word', d.int(0, 5)]
    return {'w': world(d, min_recs=1, max_recs=2, ndev=1, multi=False,
        id_style='num'), 'tool': tool, 'line': line, 'how': how, 'in':
        d.bool()}


def documented(tool, args):
    """ is the command line one of those documented? (by its symbols) """
    a = list(args)
    if tool == 'merge.py':
        if a[:1] == ['nomerge']:
            a = a[1:]
            return len(a) > 0   # one file: left open
        return len(a) > 1
    if tool == 'verify.py':
        if a == ['state']:
            return True
        if a[:1] == ['state']:
            a = a[1:]
            if a[:1] in (['continue'], ['0']):
                a = a[1:]
        if a[:1] == ['par'] and a[1:2] == ['1']:
            a = a[2:]
        if a[:1] == ['chunksize'] and len(a) > 1 and a[1] in '023':
            a = a[2:]
        if a[:1] == ['json']:
            a = a[1:]
        return len(a) == 2
    if tool == 'key_store.py' and a[1:2] == ['fromLegacyIni']:
        return len(a) == 2
    for l in LINES[tool]:
        l = l.split()
        if len(l) == len(a) and all(x == y or x not in COMMANDS and y not in
                COMMANDS for x, y in zip(l, a)):
            return True
    return False


COMMANDS = {w for ls in LINES.values() for l in ls for w in l.split()
        if len(w) > 2 and w != 'U:1'} | {'frobnicate'}


def run_usage(case, ctx):
    """ any other command line shows the usage and touches nothing """
    tool, how, n = case['tool'], case['how'][0], case['how'][1]
    args = case['line'].split()
    if how == 'more':
        args += ['x', 'y', 'z', 'v'][:n]
    elif how == 'less':
        args = args[:-n]
    else:
        i = [i for i, a in enumerate(args) if len(a) > 3 and a != 'U:1']
        if not i:
            ctx.trivial()
            return
        args[i[n % len(i)]] = 'frobnicate'
    ctx.label(tool, how)
    if documented(tool, args):
        ctx.trivial()
        return
    w = sim.World(case['w'])
    with cli.scratch() as tmp:
        ks = w.keystore(trust='all')
        files = {'K': json.dumps(ks), 'D': dump(w.dep()), 'S': json.dumps({
            'cashRegisters': [dict(new_reg(), startReceiptJWS=w.jws[0])],
            'usedReceiptIds': EMPTYIDS}), 'P': pem('CERTIFICATE', cert([1, 1])),
            'A': sim.b64(w.aes), 'F': '1\n2\n'}
        names = {k: cli.write(tmp, k + '.txt', v) for k, v in files.items()}
        names['O'] = os.path.join(tmp, 'out')
        names['J'] = w.jws[0]
        inp = b''
        if case['in'] and tool == 'verify.py' or 'state' in args:
            inp = files['S'].encode()
        elif case['in']:
            inp = files['D'] if isinstance(files['D'], bytes) else files[
                    'D'].encode()
        before = cli.tree(tmp)
        r = cli.run(tool, [names.get(a, a) for a in args], inp, cwd=tmp)
        said = (r.out + r.err).decode('utf-8', 'replace')
        expect(r.exc is None and 'Traceback' not in said,
                'command line %r crashed: %r', args, r)
        expect('sage: ' in said or 'format must be' in said,
                'no usage shown for %r: %r', args, r)
        expect_eq(cli.tree(tmp), before, 'files after %r' % args)


# ------------------------------------------------------------ img_decode.py

KINDS = ['QRCODE', 'QRCODE', 'QRCODE', 'EAN13', 'CODE128', 'PDF417', 'QRCODEX']
QR = 64


def gen_image(d):
    sp = world(d, min_recs=1, max_recs=4, ndev=1, multi=False, id_style='csv')
    n = len(sp['recs'])
    return {'w': sp, 'images': d.list(0, 3, lambda i: {'mode': d.choice(['L',
        'RGB', 'RGBA', 'P', 'L']), 'codes': d.list(0, 3, lambda i: [d.choice(
            KINDS), d.choice([d.int(0, n - 1), 'http://x/y#z', '', 'x y',
                'Gru\xdf'])]), 'ext': d.choice(['png', 'bmp'])}), 'android':
            d.bool()}


def jnius():
    """ the Java classes of ZBar, on top of the other stand-in """
    from .. import gui

    class Image(object):
        def __init__(self, width, height, fmt):
            self.args = [width, height, fmt]

        def setData(self, raw):
            self.img = gui.ZImage(*(self.args + [raw]))

        def getSymbols(self):
            return self

        def iterator(self):
            self.left = list(self.img)
            return self

        def hasNext(self):
            return len(self.left) > 0

        def next(self):
            x = self.left.pop(0)
            return types.SimpleNamespace(getType=lambda: QR if x.type ==
                    'QRCODE' else 13, getData=lambda: x.data)

    class Scanner(object):
        def scanImage(self, img):
            return gui.ZScanner().scan(img.img)

    m = types.ModuleType('jnius')
    known = {'Image': Image, 'ImageScanner': Scanner, 'Symbol':
            types.SimpleNamespace(QRCODE=QR)}
    m.autoclass = lambda name: known[name[len('net.sourceforge.zbar.'):]]
    return m


def run_image(case, ctx):
    """ img_decode.py prints the QR codes of all images in order """
    from .. import gui
    w = sim.World(case['w'])
    z = types.ModuleType('zbar')
    z.Image, z.ImageScanner = gui.ZImage, gui.ZScanner
    names = ('zbar', 'jnius')
    old = {k: sys.modules.get(k) for k in names}
    want = []
    with cli.scratch() as tmp:
        files = []
        for i, im in enumerate(case['images']):
            codes = [[t, c if isinstance(c, str) else sim.qr(w.jws[c])]
                    for t, c in im['codes']]
            files.append(os.path.join(tmp, '%d.%s' % (i, im['ext']) if im[
                'mode'] != 'RGBA' else '%d.png' % i))
            gui.picture(files[-1], codes, im['mode'])
            want += [c for t, c in codes if t == 'QRCODE']
        try:
            sys.modules['zbar'] = None if case['android'] else z
            sys.modules['jnius'] = jnius() if case['android'] else None
            r = cli.run('img_decode.py', files)
        finally:
            for k in names:
                if old[k] is None:
                    del sys.modules[k]
                else:
                    sys.modules[k] = old[k]
    ctx.label('image', 'android' if case['android'] else 'zbar')
    expect_eq((r.rc, r.exc), (0, None), 'result of img_decode.py: %r' % r)
    if not files:
        expect('sage: ' in r.text, 'no usage')
        ctx.trivial()
    else:
        expect_eq(r.text, ''.join(c + '\n' for c in want), 'codes')


SUBS = [Sub('state', gen_state, run_state, 2000),
        Sub('store', gen_store, run_store, 1000),
        Sub('pipe', gen_pipe, run_pipe, 1500),
        Sub('receipts', gen_receipts, run_receipts, 4000),
        Sub('usage', gen_usage, run_usage, 1500),
        Sub('image', gen_image, run_image, 600),
        Sub('real-state', lambda d: gen_state(d, True), run_state, 8, 100),
        Sub('real-store', lambda d: gen_store(d, True), run_store, 8, 100),
        Sub('real-pipe', lambda d: gen_pipe(d, True), run_pipe, 8, 100),
        Sub('real-receipts', lambda d: gen_receipts(d, True), run_receipts, 8,
            100)]
