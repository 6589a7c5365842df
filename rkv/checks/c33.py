import base64
import copy
import json
import os
import re

from decimal import Decimal, getcontext

from .. import gui, sim, cli
from ..paths import (run_path, keystore, dump, verdict, verify_receipt, receipt,
        utils, depparser, key_store, DEP)
from ..ref import norm_state
from ..runner import Sub, expect, expect_eq, Violation
from ..strategies import world, SERIALS
from .c09 import defect, mangle
from .c18 import cert, spki, pem, json_of, INI_IDS
from .c27 import damage
from .c28 import draws

ID = 'C33'
QUICK = 1
TITLE = 'The graphical program shows exactly what the library decides'
RULE = ('a case counts if at least three user actions took effect; distinct by '
        'actions and data')
ASSUMPTIONS = ['Kivy and zbar are not installed: both are replaced by stand-ins '
        'that interpret rktool.kv; layout and drawing are not covered',
        'between two user actions at most one job ends, and calls scheduled for '
        'the main thread run before the second next one',
        'which of several errors of a DEP is shown is left open',
        'the Android branches are not covered']


CENT = Decimal('0.01')
getcontext().prec = 60      # counters have up to 39 digits

# ------------------------------------------------------------- generation

AES_TEXTS = ['right'] * 6 + ['', '', 'other', 'right\n', ' right ', 'short',
        'long', 'bad', 'uml']
VIEW_OPS = ['verify', 'verify', 'decrypt', 'decrypt', 'aesfile', 'nofile',
        'badfile', 'close']


def gen_view(d):
    return [{'op': d.choice(VIEW_OPS), 'aes': d.choice(AES_TEXTS), 'cut':
        d.bool(1, 8)} for _ in range(d.int(0, 3))]


MID = ['dep', 'dep', 'dep', 'aes', 'aesfile', 'certbtn', 'cert', 'key', 'del',
        'import', 'export', 'cancel', 'rfile']


def gen(d, real=False):
    worlds = [world(d, min_recs=1, max_recs=8, multi=d.bool(1, 2), aes=i)
            for i in range(2)]
    for sp in worlds:
        if d.bool(1, 3):
            defect(d, sp)

    def op(i, k=None):
        deep = k is None
        k = k or d.choice(['dep', 'dep', 'dep', 'verify', 'verify', 'verify',
            'verify', 'aes', 'aes', 'aesfile', 'certbtn', 'view', 'view',
            'view', 'read', 'read', 'read', 'rfile', 'cert', 'key', 'del',
            'import', 'import', 'export', 'cancel'])
        o = {'op': k, 'w': d.int(0, 1), 'n': d.int(0, 40), 'aes': d.choice(
            AES_TEXTS), 'good': d.bool(5, 6), 'k': d.choice([1, 2, 3,
                sim.RSA]), 's': d.int(0, len(SERIALS) - 1)}
        if k == 'dep':
            o['how'] = d.choice(['ok'] * 6 + ['damaged', 'trunc', 'missing',
                'latin', 'empty', 'none', 'bom', 'mangled', 'mangled'])
            if o['how'] == 'mangled':
                o['dep'] = sim.World(worlds[o['w']]).dep()
                mangle(d, o['dep'])
            o['seed'] = [d.int(0, 2 ** 16) for _ in range(12)]
        elif k == 'verify':
            o['abort'] = d.choice([None, None, None, None, 0, 1, 2])
            if not real and deep and d.bool(2, 3):
                o['abort'] = None
                o['jobs'] = d.int(0, 2)
                o['late'] = d.choice([None, 0, 1, 2, 2, 2])
                o['ops'] = [op(0, d.choice(MID))
                        for _ in range(d.int(1, 3))]
        elif k in ('aesfile', 'import'):
            o['how'] = d.choice(['ok', 'ok', 'ok', 'ok', 'ok', 'ok', 'ok', 'ok',
                'missing', 'nokey', 'nojson', 'latin', 'none', 'damaged',
                'list'])
            o['json'] = d.bool()
            o['seed'] = [d.int(0, 2 ** 16) for _ in range(12)]
            o['trust'] = d.choice(['all', 'all', 'leaf', 'root'])
        elif k == 'view':
            o['view'] = gen_view(d)
        elif k == 'read':
            o['form'] = d.choice(['JWS', 'QR', 'OCR', 'URL', 'keep'])
            o['bad'] = d.choice([None] * 6 + ['other', 'x', '', 'sig', 'net',
                'nojson', 'nocode', 'hash', 'nohash'])
            o['view'] = gen_view(d)
        elif k == 'rfile':
            o['how'] = d.choice(['text', 'text', 'qr', 'qr', 'qr2', 'noqr',
                'missing', 'latin', 'none'])
            o['mode'] = d.choice(['L', 'RGB', 'L'])
        elif k in ('cert', 'key'):
            o['id'] = d.choice(INI_IDS)
            o['how'] = d.choice(['ok'] * 6 + ['missing', 'x', 'latin', 'none',
                'swap', 'cancel'])
        elif k == 'export':
            o['how'] = d.choice(['ok', 'ok', 'dir', 'none', 'over'])
        return o
    ops = d.list(3, 4 if real else 14, op)
    # the usual beginning
    if d.bool(3, 4):
        pre = [{'op': 'import', 'w': 0, 'n': 0, 'how': 'ok', 'json': True,
            'seed': [0], 'trust': 'all', 'good': True},
            {'op': 'dep', 'w': 0, 'n': 0, 'how': 'ok', 'seed': [0]},
            {'op': 'aes', 'aes': 'right', 'w': 0, 'n': 0}]
        ops = pre[:d.int(1, 3)] + ops
    return {'w': worlds, 'ops': ops, 'nprocs': d.int(1, 4), 'real': real}


# ------------------------------------------------------------------ model

class Session(object):
    def __init__(self, case, ctx, tmp):
        self.ctx = ctx
        self.tmp = tmp
        self.real = case['real']
        self.w = [sim.World(sp) for sp in case['w']]
        self.ks = {'certificateOrPublicKeyMap': {}}
        self.dep = None         # what is loaded
        self.groups = None
        self.verified = False
        self.can = False        # is "Verify" enabled
        self.aes = ''
        self.text = ''
        self.form = 'JWS'
        self.effects = 0
        self.busy = False       # a DEP is verified
        self.late = False       # its error may come in between
        self.dropped = False
        self.came = False
        self.nr = 0
        self.g = gui.Gui(case['nprocs'], None if self.real else gui.FakePool)

    def tab(self, name):
        t = [w for w in self.g.find('TabbedPanelItem', self.g.root)
            if w.text == name]
        expect_eq(len(t), 1, 'tabs called %r' % name)
        return t[0]

    def aes_text(self, o):
        w = self.w[o['w']]
        return {'right': sim.b64(w.aes), 'other': sim.b64(sim.aes_key(3)),
            'right\n': sim.b64(w.aes) + '\n', ' right ': ' ' + sim.b64(w.aes)
            + ' ', 'short': sim.b64(w.aes[:16]), 'long': sim.b64(w.aes * 2),
            'bad': 'A', 'uml': 'ä' + sim.b64(w.aes), '': ''}[o['aes']]

    def file(self, name, data):
        self.nr += 1
        return cli.write(self.tmp, '%d %s' % (self.nr, name), data)

    def errors(self, n, what, empty=False):
        """ exactly n error dialogs, none of them empty (a key that is no
        base64 has no message) """
        es = self.g.errors()
        if self.late and len(es) == n + 1 and n:
            self.late = False
            self.came = True
            return es
        expect_eq(len(es), n, 'error messages %r after %s' % (es, what))
        for e in es:
            expect(empty or e.strip() and e != 'None', 'empty error message %r after %s',
                    e, what)
        return es

    def no_dialog(self, what):
        expect(not self.g.dialogs(), 'dialog left open after %s: %r', what,
                self.g.dialogs())

    # ------------------------------------------------------- what is shown

    def check(self, what):
        g = self.g
        self.no_dialog(what)
        tab = self.tab('Verify DEP')
        expect_eq(g.find('TextInput', tab)[0].text, self.aes, 'AES key after '
                + what)
        bs = [b for b in g.find('Button', tab) if b.text in ('Verify',
            'Verifying...', 'Valid DEP')]
        expect_eq(len(bs), 1, 'verify buttons')
        b = bs[0]
        expect_eq((b.text, not b.disabled), ('Valid DEP', False) if
                self.verified else ('Verifying...' if self.busy else 'Verify',
                    self.can), 'verify button after ' + what)
        green = tuple(b.background_color) == (0, 1, 0, 1)
        expect_eq(green, self.verified, 'green verify button after ' + what)
        # the tree
        tv = g.find('TreeView', tab)[0]
        shown = []
        for gr in tv.root.nodes:
            sub = {n.text: [x.text for x in n.nodes] for n in gr.nodes}
            shown.append((sub.get('Signaturzertifikat'), sub.get(
                'Zertifizierungsstellen'), sub.get('Belege-kompakt')))
        want = []
        for recs, c, chain in self.groups or []:
            want.append((['Serial: ' + c] if c else [], ['Serial: ' + x for x in
                chain], [sim.fields(j)[2] for j in recs]))
        expect_eq(shown, want, 'DEP shown after ' + what)
        # the key store
        tv = g.find('TreeView', self.tab('Key Store'))[0]
        shown = {n.text: sorted(x.text for x in n.nodes) for n in
                tv.root.nodes}
        m = self.ks['certificateOrPublicKeyMap']
        expect_eq(shown, {
            'Public Keys': sorted('Key ID: ' + k for k, v in m.items() if
                v['signatureDeviceType'] == 'PUBLIC_KEY'),
            'Certificates': sorted('Serial: ' + k for k, v in m.items() if
                v['signatureDeviceType'] == 'CERTIFICATE')},
            'key store shown after ' + what)
        # the receipt
        tab = self.tab('Verify Receipt')
        expect_eq(g.find('TextInput', tab)[0].text, self.text, 'receipt text '
                'after ' + what)
        on = [r.text for r in g.find('RadioButton', tab) if r.state == 'down']
        expect_eq(on, [{'JWS': 'JWS string', 'QR': 'QR code', 'OCR': 'OCR code',
            'URL': 'URL'}[self.form]], 'input type after ' + what)

    def wait(self):
        if not self.real:
            self.g.jobs()
            return
        import time
        end = time.time() + 60
        while time.time() < end:
            self.g.frame()
            bs = [b for w in [self.g.root] + self.g.dialogs() for b in
                    self.g.find('Button', w) if b.text == 'Verifying...']
            if not bs:
                break
            time.sleep(0.01)
        self.g.frame()


def display(dep):
    """ [(receipts, serial, serials of the chain)] of a DEP """
    out = []
    from cryptography import x509
    ser = lambda b: sim.key_id(x509.load_der_x509_certificate(
        base64.b64decode(b)).serial_number)
    for g in dep['Belege-Gruppe']:
        if not g['Belege-kompakt']:
            continue
        out.append((list(g['Belege-kompakt']), ser(g['Signaturzertifikat']) if
            g['Signaturzertifikat'] else None, [ser(c) for c in
                g['Zertifizierungsstellen']]))
    return out


def parsed(raw):
    return verdict(lambda: [c for c in depparser.DictDEPParser(raw).parse(0)])


# ---------------------------------------------------------------- actions

def do_dep(s, o, what):
    g, how, w = s.g, o['how'], s.w[o['w']]
    dep = copy.deepcopy(o.get('dep') or w.dep())
    if how == 'damaged':
        dep = damage(draws(o['seed']), dep)
    raw = dump(dep, {'bom': how == 'bom'}) if isinstance(dep, dict) else \
            json.dumps(dep).encode()
    path = os.path.join(s.tmp, 'missing.json')
    if how == 'trunc':
        raw = raw[:o['seed'][0] % len(raw)]
    elif how == 'latin':
        raw = b'{"x": "\xe4"}'
    elif how == 'empty':
        raw = b''
    if how != 'missing':
        path = s.file('dep ü.json', raw)
    g.press(g.button('Load DEP', s.tab('Verify DEP')))
    expect(g.choose(None if how == 'none' else path), 'no file dialog after %s',
            what)
    if how == 'none':
        # nothing chosen: the dialog stays
        g.press(g.button('Cancel'))
        return
    js = None
    try:
        js = json.loads(raw.decode('utf-8-sig'))
    except ValueError:
        pass
    if how == 'missing' or js is None or parsed(js)[0] != 'ok':
        # everything stays as it was
        s.errors(1, what)
        s.ctx.label('DEP refused')
        return
    s.verified = False
    s.dropped = True
    bad = any(verdict(lambda: receipt.Receipt.fromJWSString(r))[0] != 'ok'
        for x in js['Belege-Gruppe'] for r in x['Belege-kompakt'])
    if bad:
        s.errors(1, what)
        s.dep, s.groups, s.can = None, [], False
        s.ctx.label('DEP with bad receipt')
        return
    s.effects += 1
    s.dep, s.groups, s.can = js, display(js), True


def do_verify(s, o, what):
    g = s.g
    b = [x for x in g.find('Button', s.tab('Verify DEP')) if x.text in
            ('Verify', 'Valid DEP')][0]
    if not s.can or s.verified:
        expect(not g.press(b), 'the verify button is enabled')
        return
    key = None
    if s.aes != '':
        try:
            key = utils.loadB64Key(s.aes.encode('utf-8'))
        except Exception:
            g.press(b)
            s.errors(1, what, True)
            s.aes = ''
            s.ctx.label('bad AES key')
            return
    g.press(b)
    if not s.real:
        expect_eq(b.text, 'Verifying...', 'text of the button')
    if o.get('abort') is not None and not s.real:
        g.jobs(o['abort'])
        if b.text == 'Verifying...':
            expect(g.press(b), 'verification can not be aborted')
            s.effects += 1
            if o['n'] % 2:
                g.jobs()
            s.ctx.label('aborted')
            return
    v = run_path(copy.deepcopy(s.dep), copy.deepcopy(s.ks), key, dict(DEP))
    if o.get('ops'):
        # the user goes on in the meantime
        s.g.jobs(o['jobs'])
        s.busy = b.text == 'Verifying...'
        if s.busy:
            meanwhile(s, o, b, v[0] == 'ok', what)
            if s.dropped:
                s.ctx.label('loaded while verifying')
                if o['n'] % 8 < 7:
                    do_verify(s, {'n': 0}, 'another try after ' + what)
                return
            s.ctx.label('actions while verifying')
    s.wait()
    s.effects += 1
    s.ctx.label('DEP ' + v[0])
    if s.came:
        s.came = False
    elif v[0] == 'ok':
        s.errors(0, what)
        s.verified = True
    else:
        es = s.errors(1, '%s (%r)' % (what, v[1:]))



def meanwhile(s, o, b, good, what):
    """ actions during the verification of a DEP """
    ops, late = o['ops'], o['late']
    deps = [x for x in ops if x['op'] == 'dep' and x['how'] != 'none']
    if late is not None and not good:
        # the error comes just when a DEP is loaded
        ops = deps[:1] or ops
        late = 2 if deps else None
    s.g.late = late
    s.dropped = False
    for x in ops:
        w2 = '%s in the middle of %s' % (x, what)
        s.late = late is not None and not good
        OPS[x['op']](s, x, w2)
        if s.dropped:
            s.g.late = None
            s.busy = False
            if o['n'] % 4 == 3:
                s.g.jobs()
        elif late is not None and b.text != 'Verifying...':
            # it has just ended
            s.busy = False
            s.verified = good
        s.check(w2)
        if not s.busy:
            break
    s.g.late = None
    s.late = False
    s.busy = False


def do_aes(s, o, what):
    s.aes = s.aes_text(o)
    s.g.type(s.g.find('TextInput', s.tab('Verify DEP'))[0], s.aes)


def aes_file(s, o):
    """ -> (path, text expected or None for an error) """
    how, text = o['how'], s.aes_text(o)
    if how == 'missing':
        return os.path.join(s.tmp, 'missing'), None
    if how == 'latin':
        return s.file('key.txt', b'\xe4\xe4'), None
    if o.get('json'):
        js = dict(s.w[0].keystore(trust='all'), base64AESKey=text)
        if how == 'nokey':
            del js['base64AESKey']
        elif how == 'list':
            js = [text]
        elif how == 'damaged':
            js['base64AESKey'] = [None, 5, [], {}][o['seed'][0] % 4]
        raw = json.dumps(js)
        if how == 'nojson':
            raw = raw[:-1]
        return s.file('key.json', raw), text if how == 'ok' else None
    return s.file('key.txt', text), text


def do_aesfile(s, o, what):
    g = s.g
    g.press(g.button('Load AES Key', s.tab('Verify DEP')))
    if o['how'] == 'none':
        expect(g.choose(None), 'no file dialog')
        g.press(g.button('Cancel'))
        return
    path, text = aes_file(s, o)
    expect(g.choose(path), 'no file dialog')
    if text is None:
        s.errors(1, what)
    else:
        s.errors(0, what)
        s.aes = text
        s.effects += 1


def do_certbtn(s, o, what):
    tv = s.g.find('TreeView', s.tab('Verify DEP'))[0]
    bs = [w for w in tv.walk() if w.__dict__.get('text', '').startswith(
        'Serial: ') and s.g.find('Button', w)]
    if not bs:
        return
    b = bs[o['n'] % len(bs)]
    kid = b.text[len('Serial: '):]
    # the certificates with that serial
    i = o['n'] % len(bs)
    ders = [x for g in s.dep['Belege-Gruppe'] if g['Belege-kompakt'] for x in (
        [g['Signaturzertifikat']] if g['Signaturzertifikat'] else []) +
        g['Zertifizierungsstellen']]
    s.g.press(b)
    s.ks['certificateOrPublicKeyMap'][kid] = {'id': kid,
        'signatureDeviceType': 'CERTIFICATE', 'signatureCertificateOrPublicKey':
        sim.b64(base64.b64decode(ders[i]))}
    s.effects += 1
    s.ctx.label('certificate from DEP')


def rows_of(s):
    lv = s.g.find('ListView')
    expect(lv, 'no receipt shown')
    return {r[0]: r[1] for r in lv[0].rows()}


def check_view(s, j, key, what):
    """ the values shown for receipt j """
    f = sim.fields(j)
    rows = rows_of(s)
    kind = kind_of(j)
    want = {'ZDA ID': f[0], 'Cash Register ID': f[1], 'Receipt ID': f[2],
        'Timestamp': f[3], 'Certificate Serial/Key ID': f[10],
        'Chaining Value': f[11]}
    for k, v in want.items():
        got = rows.get(k)
        if k == 'Timestamp' and got:
            # years before 1000
            got, v = got.lstrip('0'), v.lstrip('0')
        expect_eq(got, v, '%s shown after %s' % (k, what))
    for k, v in zip(('Sum Tax Normal', 'Sum Tax Reduced 1', 'Sum Tax Reduced 2',
            'Sum Tax Zero', 'Sum Tax Special'), f[4:9]):
        expect_eq(Decimal(rows[k]), Decimal(v.replace(',', '.')), k + ' after '
                + what)
    t = rows['Turnover Counter']
    if kind in ('TRA', 'STO'):
        expect_eq(t, kind, 'counter shown')
    elif key is None:
        expect_eq(t, f[9], 'counter shown without a key')
    else:
        c = decrypt(j, key)
        expect_eq(Decimal(t), Decimal(c) * CENT, 'decrypted counter')
        s.ctx.label('decrypted')
    sig = sim.unb64u(j.split('.')[2])
    if sig == b'Sicherheitseinrichtung ausgefallen':
        expect_eq(rows['Signature'], 'Signature system broken', 'signature')
    else:
        x = rows['Signature'].replace('-', '+').replace('_', '/')
        expect_eq(base64.b64decode(x + '=' * (-len(x) % 4)), sig, 'signature')


def decrypt(j, key):
    f = sim.fields(j)
    return sim.dec_counter(key, f[1], f[2], base64.b64decode(f[9]))


def kind_of(j):
    e = sim.fields(j)[9]
    return {sim.b64(b'TRA'): 'TRA', sim.b64(b'STO'): 'STO'}.get(e, '')


def view(s, o, j, key_text, verified, what):
    """ the view of a receipt that was just opened """
    g = s.g
    f = sim.fields(j)
    sig = sim.unb64u(j.split('.')[2])
    broken = sig == b'Sicherheitseinrichtung ausgefallen'
    kind = kind_of(j)
    null = kind not in ('TRA', 'STO') and not any(float(x.replace(',', '.'))
            for x in f[4:9])
    n = 0
    key = None
    state = 'Verify'
    if verified:
        state = 'Valid Signature'
    if broken:
        state = 'No Signature'
    if broken and null:
        n += 1
    if key_text:
        k = usable(key_text, f)
        if k is None:
            n += 1
        else:
            key = k
    s.errors(n, what, True)
    field = key_text if key is not None else ''
    s.effects += 1
    for i, v in enumerate([None] + list(o['view'])):
        w2 = '%s, view action %d (%r)' % (what, i, v)
        if v is None:
            pass
        elif v['op'] == 'close':
            break
        elif v['op'] == 'verify':
            b = g.button('Verify')
            if state != 'Verify':
                expect(b is None, 'verified again')
                continue
            expect(g.press(b), 'receipt can not be verified')
            s.wait()
            rv = verify_receipt.ReceiptVerifier.fromKeyStore(keystore(s.ks))
            r = verdict(lambda: rv.verifyJWS(j))
            if r[0] == 'ok':
                s.errors(0, w2)
                state = 'Valid Signature'
            else:
                es = s.errors(1, w2)
                expect_eq(es[0], str(r[2]), 'message after ' + w2)
            s.ctx.label('receipt ' + r[0])
        else:
            b = g.button('Decrypt Turnover Counter')
            expect(b is not None, 'no decrypt button')
            off = kind in ('TRA', 'STO') or key is not None
            expect_eq(b.disabled, off, 'decrypt button disabled, ' + w2)
            if off:
                continue
            t = s.aes_text(dict(v, w=o['w'])) if v['op'] == 'decrypt' else ''
            g.type(g.find('TextInput')[0], t)
            g.press(b)
            if t == '':
                how = {'nofile': 'missing', 'badfile': 'nokey'}.get(v['op'],
                        'ok')
                path, t = aes_file(s, {'how': how, 'json': how == 'nokey' or
                    v['cut'], 'aes': v['aes'], 'w': o['w'], 'seed': [0]})
                expect(g.choose(path), 'no file dialog after ' + w2)
            k = usable(t, f) if t is not None else None
            if k is None:
                s.errors(1, w2, True)
                field = '' if t is not None else field
                g.type(g.find('TextInput')[0], field)
            else:
                s.errors(0, w2)
                key, field = k, t
        check_view(s, j, key, w2)
        bs = [b for b in g.find('Button') if b.text in ('Verify',
            'Verifying...', 'Valid Signature', 'No Signature')]
        expect_eq([(b.text, b.disabled) for b in bs], [(state, state !=
            'Verify')], 'verify button, ' + w2)
        expect_eq(tuple(bs[0].background_color) == (0, 1, 0, 1), state ==
                'Valid Signature' or verified, 'green button, ' + w2)
    back = g.find('ActionPrevious')
    expect(len(back) == 1, 'no way back')
    g.press(back[0])


def usable(text, f):
    """ the key if it can be used for the receipt """
    try:
        k = utils.loadB64Key(text.encode('utf-8'))
    except Exception:
        return None
    return k if f[0].startswith('R1-') and len(k) == 32 else None


def do_view(s, o, what):
    tv = s.g.find('TreeView', s.tab('Verify DEP'))[0]
    rs = [(n, r) for gr, want in zip(tv.root.nodes, s.groups or []) for n, r in
        zip(gr.nodes[-1].nodes, want[0])]
    if not rs:
        return
    node, j = rs[o['n'] % len(rs)]
    expect(s.g.press(node), 'receipt can not be opened')
    s.ctx.label('view')
    view(s, o, j, s.aes, s.verified, what)


FORMS = {'JWS': lambda j: j, 'QR': sim.qr, 'OCR': sim.ocr}


def do_read(s, o, what):
    import requests
    g = s.g
    tab = s.tab('Verify Receipt')
    w = s.w[o['w']]
    j = w.jws[o['n'] % len(w.jws)]
    if o['form'] != 'keep':
        r = [x for x in g.find('RadioButton', tab) if x.text == {'JWS':
            'JWS string', 'QR': 'QR code', 'OCR': 'OCR code', 'URL': 'URL'}[
                o['form']]][0]
        g.press(g.find('CheckBox', r)[0])
        s.form = o['form']
    form, bad = s.form, o['bad']
    jf = sim.fields(j)
    try:
        if len(sim.unb64u(j.split('.')[2])) < 9:
            bad = None
        [f(j) for f in FORMS.values()]
        sim.url_hash(j)
    except ValueError:
        return      # no such form of a damaged receipt
    if bad == 'sig':
        j = j[:-4] + ('AAAA' if j[-4:] != 'AAAA' else 'BBBB')
    if form == 'URL':
        url = 'http://host/x#' + sim.url_hash(j)
        if bad == 'hash':
            url = 'http://host/x#AAAAAAAAAAA'
        elif bad == 'nohash':
            url = 'http://host/x'
        text = url
    elif bad == 'other':
        text = FORMS[{'JWS': 'QR', 'QR': 'OCR', 'OCR': 'JWS'}[form]](j)
    elif bad in ('x', ''):
        text = bad
    else:
        text = FORMS[form](j)
    if '\r\n' in text:
        return
    g.type(g.find('TextInput', tab)[0], text)
    s.text = text

    def get(u, *a, **kw):
        r = requests.Response()
        if bad == 'net':
            if o['n'] % 2:
                raise requests.exceptions.ConnectionError('no network')
            r.status_code = 500
        else:
            r.status_code = 200
        code = sim.qr(j)
        r._content = {'nojson': b'<html>', 'nocode': [b'{}', b'[]', b'5',
            b'{"code": 5}', b'{"code": null}'][o['n'] % 5], 'x':
            b'{"code": "x"}'}.get(bad, json.dumps({'code': code}).encode())
        return r
    old = requests.get
    requests.get = get
    try:
        expect(g.press(g.button('Read Receipt', tab)), 'receipt can not be read')
    finally:
        requests.get = old
    read = {'JWS': receipt.Receipt.fromJWSString, 'QR':
            receipt.Receipt.fromBasicCode, 'OCR':
            receipt.Receipt.fromOCRCode}
    if form == 'URL':
        ok = bad not in ('net', 'nojson', 'nocode', 'x', 'hash', 'nohash') and \
                verdict(lambda: receipt.Receipt.fromBasicCode(sim.qr(j)))[0] \
                == 'ok' and jf[0].startswith('R1-')
        if bad == 'hash' and sim.url_hash(j) == 'AAAAAAAAAAA':
            ok = True
    else:
        ok = verdict(lambda: read[form](text))[0] == 'ok'
    s.ctx.label('read ' + form)
    if not ok:
        s.errors(1, what)
        s.ctx.label('unreadable')
        return
    if form != 'URL':
        r, p = read[form](text)
        j = r.toJWSString(p)
    elif not canonical(j):
        s.g.errors()
        g.press(g.find('ActionPrevious')[0])
        return
    else:
        r, p = receipt.Receipt.fromBasicCode(sim.qr(j))
        j = r.toJWSString(p)
    view(s, o, j, None, False, what)


def canonical(j):
    return True


def do_rfile(s, o, what):
    g, how = s.g, o['how']
    w = s.w[o['w']]
    j = w.jws[o['n'] % len(w.jws)]
    g.press(g.button('...', s.tab('Verify Receipt')))
    if how == 'none':
        expect(g.choose(None), 'no file dialog')
        g.press(g.button('Cancel'))
        return
    n = 0
    if how == 'missing':
        path, n = os.path.join(s.tmp, 'missing'), 1
    elif how == 'latin':
        path, n = s.file('r.txt', b'\xe4'), 1
    elif how == 'text':
        if j.strip() != j or '\r' in j:
            j = 'x'
        path = s.file('r.txt', ' ' * (o['n'] % 2) + j + '\n' * (o['n'] % 3))
        s.text = j
    else:
        codes = {'qr': [('QRCODE', sim.qr(j))], 'qr2': [('EAN13', '123'),
            ('QRCODE', sim.qr(j)), ('QRCODE', 'x')], 'noqr': [('EAN13', '1')
                ] * (o['n'] % 2)}[how]
        if '\r\n' in sim.qr(j):
            codes, how = [('QRCODE', 'x')], 'x'
        s.nr += 1
        path = os.path.join(s.tmp, '%d.png' % s.nr)
        gui.picture(path, codes, o['mode'])
        if how == 'noqr':
            n = 1
        else:
            s.text = 'x' if how == 'x' else sim.qr(j)
            s.form = 'QR'
    expect(g.choose(path), 'no file dialog')
    s.errors(n, what)
    s.effects += 1
    s.ctx.label('receipt from ' + how)


def do_cert(s, o, what):
    g, how = s.g, o['how']
    tab = s.tab('Key Store')
    isc = o['op'] == 'cert'
    g.press(g.button('Certificates' if isc else 'Public Keys', tab))
    if how == 'none':
        expect(g.choose(None), 'no file dialog')
        g.press(g.button('Cancel'))
        return
    der = cert([o['k'], o['s']])
    a, b = pem('CERTIFICATE', der), pem('PUBLIC KEY', spki(o['k']))
    text = a if isc == (how != 'swap') else b
    if how == 'x':
        text = text[:len(text) // 2]
    path = os.path.join(s.tmp, 'missing') if how == 'missing' else s.file('c.pem',
            b'\xe4' if how == 'latin' else text)
    expect(g.choose(path), 'no file dialog')
    if how in ('missing', 'latin'):
        s.errors(1, what)
        return
    if not isc:
        t = g.find('TextInput')
        expect(t, 'not asked for the key ID')
        g.type(t[0], o['id'])
        if how == 'cancel':
            g.press(g.button('Cancel'))
            return
        g.press(g.button('Ok'))
    if how in ('x', 'swap'):
        s.errors(1, what)
        return
    s.errors(0, what)
    m = s.ks['certificateOrPublicKeyMap']
    kid = sim.key_id(SERIALS[o['s']]) if isc else o['id']
    m.update(json_of({kid: (spki(o['k']), der if isc else None)}))
    s.effects += 1
    s.ctx.label('key added')


def do_del(s, o, what):
    tv = s.g.find('TreeView', s.tab('Key Store'))[0]
    bs = [x for n in tv.root.nodes for x in n.nodes]
    if not bs:
        return
    b = bs[o['n'] % len(bs)]
    kid = b.text.split(': ', 1)[1]
    s.g.press(b)
    del s.ks['certificateOrPublicKeyMap'][kid]
    s.effects += 1
    s.ctx.label('key deleted')


def do_import(s, o, what):
    g, how = s.g, o['how']
    js = dict(s.w[o['w']].keystore(trust=o['trust']))
    if how == 'damaged':
        js = damage(draws(o['seed']), js)
    elif how == 'nokey':
        js = {}
    elif how == 'list':
        js = [js]
    if o['json']:
        js = dict(js, base64AESKey='x') if isinstance(js, dict) else js
    raw = json.dumps(js)
    if how == 'nojson':
        raw = raw[:-2]
    path = os.path.join(s.tmp, 'missing') if how == 'missing' else s.file(
            'ks.json', b'{"\xe4": 1}' if how == 'latin' else raw)
    g.press(g.button('Import', s.tab('Key Store')))
    if how == 'none':
        expect(g.choose(None), 'no file dialog')
        g.press(g.button('Cancel'))
        return
    expect(g.choose(path), 'no file dialog')
    v = verdict(lambda: keystore(js)) if how not in ('missing', 'latin',
            'nojson') else ('bad',)
    if v[0] != 'ok':
        s.errors(1, what)
        s.ctx.label('key store refused')
        return
    s.errors(0, what)
    s.ks = json.loads(json.dumps(v[1].writeStoreToJson(None)))
    s.ks.pop('base64AESKey', None)
    s.effects += 1


def do_export(s, o, what):
    g, how = s.g, o['how']
    g.press(g.button('Export', s.tab('Key Store')))
    s.nr += 1
    name = os.path.join(s.tmp, 'export%d.json' % s.nr)
    if how == 'dir':
        name = s.tmp
    elif how == 'none':
        name = ''
    elif how == 'over':
        cli.write(s.tmp, os.path.basename(name), 'x' * 100000)
    fc = g.find('FileChooserListView')
    expect(fc, 'no file dialog')

    def f():
        fc[0].path = s.tmp
    g.act(f)
    g.type(g.find('TextInput')[0], name)
    g.press(g.button('Save'))
    if how == 'none':
        g.press(g.button('Cancel'))
        return
    if how == 'dir':
        s.errors(1, what)
        return
    s.errors(0, what)
    js = json.loads(cli.read(name).decode('utf-8'))
    expect_eq(js['certificateOrPublicKeyMap'], s.ks[
        'certificateOrPublicKeyMap'], 'exported key store')
    expect(not js.get('base64AESKey'), 'exported symmetric key')
    s.effects += 1
    s.ctx.label('exported')


def do_cancel(s, o, what):
    names = [('Load DEP', 'Verify DEP'), ('Load AES Key', 'Verify DEP'),
        ('...', 'Verify Receipt'), ('Public Keys', 'Key Store'),
        ('Certificates', 'Key Store'), ('Import', 'Key Store'), ('Export',
            'Key Store')]
    b, t = names[o['n'] % len(names)]
    expect(s.g.press(s.g.button(b, s.tab(t))), 'button %s', b)
    expect(s.g.press(s.g.button('Cancel')), 'no way to cancel')


OPS = {'dep': do_dep, 'verify': do_verify, 'aes': do_aes, 'aesfile':
    do_aesfile, 'certbtn': do_certbtn, 'view': do_view, 'read': do_read,
    'rfile': do_rfile, 'cert': do_cert, 'key': do_cert, 'del': do_del,
    'import': do_import, 'export': do_export, 'cancel': do_cancel}


def run(case, ctx):
    with cli.scratch() as tmp:
        s = Session(case, ctx, tmp)
        try:
            s.check('the start')
            for i, o in enumerate(case['ops']):
                what = 'action %d (%s)' % (i, {k: v for k, v in o.items() if k
                    not in ('dep', 'seed')})
                try:
                    OPS[o['op']](s, o, what)
                except gui.Crash as e:
                    raise Violation('the program crashed: %s; %s' % (e, what))
                except (LookupError, ValueError, TypeError,
                        AttributeError) as e:
                    raise Violation('what the program shows or writes can not '
                            'be read: %r; %s' % (e, what))
                s.check(what)
            if s.effects < 3:
                ctx.trivial()
        finally:
            s.g.close()


SUBS = [Sub('session', gen, run, 3000),
        Sub('real', lambda d: gen(d, True), run, 8, 100)]
