import copy
import json

from .. import sim
from ..paths import (UNIQUE, SORTED, load_state, dump_state, reg_facts,
        verdict, run_path,
        keystore, verify, depparser, dump, Stream, PicklePool, Err, DEP)
from ..runner import Sub, expect, expect_eq
from ..strategies import world, path, Walk, Ids
from .c09 import defect, mangle

ID = 'C26'
TITLE = 'A failed verification leaves the given state untouched'
RULE = ('a case counts if at least one attempt failed after the state had been '
        'given; distinct by history, split, defects and paths')
ASSUMPTIONS = ['errors of the operating system while reading may surface as '
        'they are; only the state afterwards is judged']

KINDS = ['record', 'record', 'record', 'record', 'mangle', 'trunc', 'io',
        'pool', 'store', 'key', 'idx', 'foreign', 'new', 'again']


class Injected(Exception):
    """ an error from outside of the library """


class BadStream(Stream):
    def __init__(self, data, at):
        super(BadStream, self).__init__(data, 64)
        self.at = at

    def read(self, n=-1):
        if self.pos >= self.at:
            raise Injected()
        return super(BadStream, self).read(n)


class BadPool(PicklePool):
    """ fails when the n-th batch is collected (a killed worker, an
    interrupted program) """
    def __init__(self, at):
        super(BadPool, self).__init__()
        self.left = at

    def map_async(self, func, iterable, *args):
        r = super(BadPool, self).map_async(func, iterable)
        self.left -= 1
        if self.left < 0:
            def get(timeout=None):
                raise Injected()
            r.get = get
        return r


def gen(d):
    natural = d.bool(1, 6)
    sp = world(d, min_recs=2, max_recs=10, multi=d.bool(),
            id_style=d.choice(['num', 'pre', 'pad']) if natural else None)
    n = len(sp['recs'])
    cut = d.int(1, n - 1)
    atts = []
    for _ in range(d.int(1, 3)):
        a = {'kind': d.choice(KINDS), 'path': path(d, n), 'at': d.int(0, 4000),
                'idx': d.choice([0, 0, 0, None]), 'n': d.int(0, 3)}
        if a['kind'] in ('record', 'mangle', 'new'):
            s2 = json.loads(json.dumps(sp))
            if a['kind'] == 'record':
                defect(d, dict(s2, recs=s2['recs'][cut:]))
            a['spec'] = s2
            dep = part(sim.World(s2), cut, n)
            if a['kind'] == 'mangle':
                mangle(d, dep)
            if a['kind'] == 'new':
                dep = sim.World(s2).dep()       # all IDs known already
                a['idx'] = None
            a['dep'] = dep
            del a['spec']
        atts.append(a)
    second = None
    if sp['closed'] and d.bool(1, 3) and not natural:
        w = Walk(d, len(sp['devs']), sp['size'], Ids(d, 'text', [r['id'] for r
            in sp['recs']]), t=sp['recs'][0]['t'])
        second = d.list(1, 4, w.next)
    return {'w': sp, 'cut': cut, 'atts': atts, 'natural': natural, 'key':
            d.bool(3, 4), 'path': path(d, n), 'path1': path(d, n),
            'second': second}


def part(w, a, b):
    p = sim.World(w.spec)
    p.jws, p.recdev = w.jws[a:b], w.recdev[a:b]
    return p.dep()


def snap(state):
    return (dump_state(state), [reg_facts(r) for r in state.cashRegisters])


def attempt(a, dep, kso, key, state, backend):
    """ -> as run_path; outside errors are ('bad', 'Injected') """
    k = a['kind']
    if k == 'trunc' or k == 'io':
        raw = dump(dep)
        at = a['at'] % max(1, len(raw) - 1)
        fd = Stream(raw[:at], 64) if k == 'trunc' else BadStream(raw, at)
        p = depparser.FullFileDEPParser(fd) if a['n'] == 3 else \
                depparser.IncrementalDEPParser.fromFd(fd)
        chunk = a['path'].get('chunk', 1)
        np = a['path'].get('nprocs', 1)
        pool = PicklePool() if a['path'].get('pool') else None
    elif k == 'pool':
        p = depparser.DictDEPParser(dep)
        chunk, np, pool = 1 + a['at'] % 3, 1 + a['at'] % 2, BadPool(a['n'])
    else:
        return run_path(dep, kso, key, a['path'], state, a['idx'], backend)

    def go():
        try:
            return dump_state(verify.verifyParsedDEP(p, kso, key, state,
                a['idx'], pool, np, chunk, backend))
        except Injected:
            return Injected
    got = verdict(go)
    if got[0] == 'ok' and got[1] is Injected:
        return ('bad', 'Injected', None)
    return got


def run(case, ctx):
    w = sim.World(case['w'])
    n = len(w.jws)
    cut = case['cut']
    backend = SORTED if case['natural'] else UNIQUE
    ks = w.keystore(trust='all')
    kso = keystore(ks)
    key = w.aes if case['key'] else None
    first = run_path(part(w, 0, cut), ks, key, case['path1'], None, None,
            backend)
    expect_eq(first[0], 'ok', 'beginning of a conforming DEP (%r)' % (
        first[1:],))
    js = first[1]
    if case['second']:
        s = sim.World(dict(w.spec, recs=case['second']), w.jws[0])
        nxt = run_path(s.dep(), ks, key, DEP, load_state(js), None, backend)
        expect_eq(nxt[0], 'ok', 'second register (%r)' % (nxt[1:],))
        js = nxt[1]
    rest = part(w, cut, n)
    want = run_path(copy.deepcopy(rest), ks, key, DEP, load_state(js), 0,
            backend)
    expect_eq(want[0], 'ok', 'rest of a conforming DEP (%r)' % (want[1:],))

    st = load_state(js)
    before = snap(st)
    ksdump = json.dumps(kso.writeStoreToJson(None), sort_keys=True)
    failed = False
    for a in case['atts']:
        k = a['kind']
        dep = copy.deepcopy(a.get('dep', rest))
        kk, so = key, kso
        if k == 'store':
            so = keystore(sim.KeyStoreJson().json())
        elif k == 'key':
            kk = [b'', b'x' * 16, sim.aes_key(77), sim.aes_key(78)][a['n']]
        elif k == 'idx':
            a = dict(a, idx=[-1, 7, len(st.cashRegisters) + 1, -2][a['n']])
        elif k == 'foreign':
            dep = sim.World(dict(w.spec, reg=case['w']['reg'] + 'x')).dep()
        saved = copy.deepcopy(dep)
        got = attempt(a, dep, so, kk, st, backend)
        ctx.label(k, got[0] if got[0] == 'ok' else got[1])
        what = 'after attempt %r (%s)' % (k, got[:2])
        expect_eq(snap(st), before, 'state ' + what)
        expect_eq(dep, saved, 'DEP ' + what)
        expect_eq(json.dumps(kso.writeStoreToJson(None), sort_keys=True),
                ksdump, 'key store ' + what)
        if got[0] != 'ok':
            failed = True
        elif k in ('trunc', 'idx', 'foreign', 'new'):
            expect(False, '%s attempt was accepted', k)
    if not failed:
        ctx.trivial()
    got = run_path(copy.deepcopy(rest), kso, key, case['path'], st, 0, backend)
    expect_eq(got[0], 'ok', 'verification of the right file afterwards (%r)'
            % (got[1:],))
    expect_eq(got[1], want[1], 'state from the right file afterwards')
    expect_eq(snap(st), before, 'state after a successful verification')
    # the result does not share anything with the passed state either
    p = case['path']
    if p['p'] == 'dep':
        s2 = verify.verifyDEP(copy.deepcopy(rest), kso, key, st, 0, backend)
    else:
        s2 = verify.verifyParsedDEP(depparser.DictDEPParser(copy.deepcopy(
            rest)), kso, key, st, 0, None, 1, p['chunk'], backend)
    got2 = dump_state(s2)
    expect_eq(got2, want[1], 'state from a second verification')
    s2.usedReceiptIds.add('another one')
    for r in s2.cashRegisters[:1]:
        r.lastTurnoverCounter += 1
    expect_eq(snap(st), before, 'state after changing the result')


# ---------------------------------------------------------------- new states

def gen_new(d):
    """ states without registers, and states that wait for a first receipt """
    sp = world(d, min_recs=1, max_recs=5)
    case = {'w': sp, 'pre': d.choice([[], [], ['zz'], [sp['recs'][-1]['id']]]),
            'idx': d.choice([None, 0, 0]), 'start': d.bool(1, 3), 'tries': []}
    for _ in range(d.int(1, 3)):
        s2 = json.loads(json.dumps(sp))
        if d.bool(2, 3):
            defect(d, s2)
        case['tries'].append({'w': s2, 'path': path(d, len(sp['recs'])), 'idx':
            d.choice([case['idx'], 0, 1, -1])})
    return case


def run_new(case, ctx):
    w = sim.World(case['w'])
    ks = w.keystore(trust='all')
    st = load_state({'cashRegisters': [{'startReceiptJWS': None,
        'lastReceiptJWS': None, 'lastTurnoverCounter': 0, 'needRestoreReceipt':
        False, 'chainNextTo': sim.fields(w.jws[0])[11]}] if case['start'] else
        [], 'usedReceiptIds': {'backendType': 'USED_RECEIPT_IDS_UNIQUE',
            'backendData': case['pre']}})
    before = snap(st)
    ctx.label('start' if case['start'] else 'empty')
    for t in case['tries'] + [{'w': case['w'], 'path': DEP, 'idx': 0}]:
        got = run_path(sim.World(t['w']).dep(), ks, w.aes, t['path'], st,
                t['idx'])
        ctx.label(got[0])
        expect_eq(snap(st), before, 'state after a verification (%s)' % (
            got[:2],))
        if t['path'] is DEP:
            expect_eq(got[0], 'bad' if w.spec['recs'][-1]['id'] in case['pre']
                    else 'ok', 'verdict on the right file (%r)' % (got[1:],))


SUBS = [Sub('new', gen_new, run_new, 1500), Sub('attempts', gen, run, 4500)]
