"""
Everything that runs code from /repo on a scenario: verification through all
parsers / chunk sizes / process layouts, with verdicts in comparable form.
"""
import io
import json
import pickle

from . import env, sim

from librksv import (algorithms, depparser, key_store, receipt, utils, verify,
        verification_state, verify_receipt)

from .ref import norm_state

UNIQUE = verification_state.UsedReceiptIdsUnique
SORTED = verification_state.UsedReceiptIdsSortedNatural
Err = utils.RKSVException


class Stream(io.RawIOBase):
    """ a binary stream that can not be seeked (a pipe, a socket) """
    def __init__(self, data, step=37):
        self.data = data
        self.pos = 0
        self.step = step

    def readable(self):
        return True

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.data)
        n = min(n, self.step) if n else n
        r = self.data[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    def readinto(self, b):
        r = self.read(len(b))
        b[:len(r)] = r
        return len(r)

    def seekable(self):
        return False

    def tell(self):
        raise IOError('not seekable')

    def seek(self, *a):
        raise IOError('not seekable')


# further elements whose names say nothing, or look like a path
EXTRA_GROUP = {
    'empty': {'': {'': {'Belege-kompakt': ['y']}, 'x': [{}]}},
    'dots': {'Belege-kompakt.item': 'x', 'Zertifizierungsstellen.item': ['x'],
        'Signaturzertifikat.item': {'': 1}, '.': 'x'},
}
EXTRA_ROOT = {
    'empty': {'': {'': {'Belege-Gruppe': [1]}, 'Belege-Gruppe': [{'x': {}}],
        'a': [{}]}},
    'dots': {'Belege-Gruppe.item': {'Signaturzertifikat': 'x',
            'Zertifizierungsstellen': ['x'], 'Belege-kompakt': ['x']},
        'Belege-Gruppe.item.Signaturzertifikat': 'x',
        'Belege-Gruppe.item.Zertifizierungsstellen': ['x'],
        'Belege-Gruppe.item.Belege-kompakt.item': 'x', '.Belege-Gruppe': []},
}


def dump(dep, layout=None):
    """
    Serialises a DEP: {'order': permutation 0..5 of the group elements,
    'indent', 'ascii', 'bom', 'extra'}
    """
    lay = layout or {}
    orders = [('Signaturzertifikat', 'Zertifizierungsstellen', 'Belege-kompakt'),
        ('Zertifizierungsstellen', 'Signaturzertifikat', 'Belege-kompakt'),
        ('Signaturzertifikat', 'Belege-kompakt', 'Zertifizierungsstellen'),
        ('Zertifizierungsstellen', 'Belege-kompakt', 'Signaturzertifikat'),
        ('Belege-kompakt', 'Signaturzertifikat', 'Zertifizierungsstellen'),
        ('Belege-kompakt', 'Zertifizierungsstellen', 'Signaturzertifikat')]
    out = {}
    for k, v in dep.items():
        if k == 'Belege-Gruppe' and isinstance(v, list):
            gs = []
            for i, g in enumerate(v):
                if isinstance(g, dict):
                    o = lay.get('order', 0)
                    o = orders[(o[i % len(o)] if isinstance(o, list) else o)]
                    ng = {}
                    if lay.get('extra'):
                        ng['Kommentar'] = {'x': [1, {'Belege-kompakt': ['y']}]}
                    ng.update(EXTRA_GROUP.get(lay.get('extra'), {}))
                    for e in o:
                        if e in g:
                            ng[e] = g[e]
                    for e in g:
                        ng.setdefault(e, g[e])
                    g = ng
                gs.append(g)
            v = gs
        if lay.get('extra'):
            out['Version'] = [1, {'a': None}]
        out.update(EXTRA_ROOT.get(lay.get('extra'), {}))
        out[k] = v
    s = json.dumps(out, indent=lay.get('indent'),
            ensure_ascii=lay.get('ascii', True)).encode('utf-8')
    if lay.get('bom'):
        s = b'\xef\xbb\xbf' + s
    return s


def make_parser(p, dep, layout=None, nparts=1):
    """ -> (parser, list of things to close) """
    if p == 'dict':
        return depparser.DictDEPParser(dep, nparts)
    raw = dump(dep, layout)
    if p == 'full':
        return depparser.FullFileDEPParser(io.BytesIO(raw), nparts)
    if p == 'fulltext':
        return depparser.FullFileDEPParser(io.StringIO(raw.decode('utf-8')),
                nparts)
    if p == 'file':
        return depparser.IncrementalDEPParser.fromFd(io.BytesIO(raw))
    if p == 'text':
        return depparser.IncrementalDEPParser.fromFd(io.TextIOWrapper(
            io.BytesIO(raw), encoding='utf-8'))
    if p == 'stream':
        return depparser.IncrementalDEPParser.fromFd(Stream(raw))
    if p == 'certless':
        return depparser.IncrementalDEPParser.fromFd(io.BytesIO(raw), False)
    raise KeyError(p)


class PicklePool(object):
    """
    Behaves like multiprocessing.Pool.map_async(): the work packages are sent
    in batches; objects survive only as pickles.  In-process, so it can be used
    for many cases, with a generated batch size and evaluation order.
    """
    def __init__(self, batch=1, lazy=False, reverse=False):
        self.batch = max(1, batch)
        self.lazy = lazy
        self.reverse = reverse

    def map_async(self, func, iterable, *args):
        tasks = list(iterable)
        batches = [pickle.dumps((func, tasks[i:i + self.batch]))
                for i in range(0, len(tasks), self.batch)]
        pool = self

        class Res(object):
            done = None

            def run(self):
                outs = [None] * len(batches)
                order = range(len(batches))
                if pool.reverse:
                    order = reversed(order)
                for i in order:
                    try:
                        f, args = pickle.loads(batches[i])
                        r = (True, [f(a) for a in args])
                    except Exception as e:
                        r = (False, e)
                    outs[i] = pickle.loads(pickle.dumps(r))
                self.done = outs

            def get(self, timeout=None):
                if self.done is None:
                    self.run()
                for ok, v in self.done:
                    if not ok:
                        raise v
                return [x for ok, v in self.done for x in v]

        r = Res()
        if not self.lazy:
            r.run()
        return r

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable).get()

    def imap(self, func, iterable, chunksize=1):
        return iter(self.map(func, iterable))

    def apply_async(self, func, args=()):
        r = self.map_async(_call, [(func, tuple(args))])
        get = r.get
        r.get = lambda timeout=None: get()[0]
        return r

    def apply(self, func, args=()):
        return self.apply_async(func, args).get()


def _call(fa):
    return fa[0](*fa[1])


_real = {}


def real_pool(n):
    """ a real process pool, created once per process """
    import multiprocessing
    if n not in _real:
        _real[n] = multiprocessing.get_context('fork').Pool(n,
                env.die_with_parent)
    return _real[n]


def cleanup():
    for p in _real.values():
        p.terminate()
        p.join()
    _real.clear()


def keystore(js):
    return key_store.KeyStore.readStoreFromJson(js)


def load_state(js):
    return verification_state.ClusterState.readStateFromJson(
            json.loads(json.dumps(js)))


def dump_state(state):
    return norm_state(json.loads(json.dumps(state.writeStateToJson())))


def reg_facts(reg):
    """ everything known about one register """
    return [(n, getattr(reg, n)) for n in ('startReceiptJWS', 'lastReceiptJWS',
        'lastTurnoverCounter', 'needRestoreReceipt', 'chainNextTo')]


def verdict(fn):
    """ -> ('ok', value) | ('bad', exception class name, exception) """
    try:
        return ('ok', fn())
    except Err as e:
        return ('bad', type(e).__name__, e)


def run_path(dep, ks, key, path, state=None, idx=None, backend=UNIQUE):
    """
    path: {'p': 'dep'|parser name, 'chunk', 'nparts', 'nprocs', 'pool':
    None|'pickle'|'real', 'batch', 'lazy', 'layout'}
    -> ('ok', normalised state JSON) | ('bad', exception name, exception)
    """
    if isinstance(ks, dict):
        ks = keystore(ks)

    def go():
        if path['p'] == 'dep':
            s = verify.verifyDEP(dep, ks, key, state, idx, backend)
        else:
            parser = make_parser(path['p'], dep, path.get('layout'),
                    path.get('nparts', 1))
            np = path.get('nprocs', 1)
            pool = path.get('pool')
            if pool == 'pickle':
                pool = PicklePool(path.get('batch', 1), path.get('lazy', False),
                        path.get('reverse', False))
            elif pool == 'real':
                pool = real_pool(min(np, 3))
            s = verify.verifyParsedDEP(parser, ks, key, state, idx, pool, np,
                    path.get('chunk', 0), backend)
        return dump_state(s)
    return verdict(go)


DEP = {'p': 'dep'}
