"""
Hypothesis strategies for scenarios (see sim.World) and for values that occur
in receipts, DEPs, key stores and states.
"""
import copy
import datetime

from . import sim

MAXCNT = {n: 2 ** (8 * n - 1) - 1 for n in range(5, 17)}

EPOCH = datetime.datetime(1970, 1, 1)


def secs(*a):
    return int((datetime.datetime(*a) - EPOCH).total_seconds())


T_MAX = secs(9999, 12, 31, 23, 59, 59)
BASES = [secs(2017, 4, 1), secs(2016, 2, 29, 23, 59, 59), 0,
        secs(2000, 12, 31, 23, 59, 58), secs(1999, 12, 31, 23, 59, 59),
        secs(1000, 1, 1), secs(2038, 1, 19, 3, 14, 7), secs(2100, 2, 28, 23),
        secs(9999, 12, 31, 0, 0, 0), secs(2017, 10, 29, 2, 59, 59), -1,
        secs(1, 1, 1)]

TEXT_POOL = ['DEMO-CASH-BOX817', 'a', '1', '0', 'Kasse Süd', '☕ 1',
        'REG-ß', ' x', 'ID.7', 'a=b', 'é', 'é', '\U0001f4b6', 'A' * 70, '-',
        '/', '"q"', 'back\\slash', 'tab\tx', '%s {} %d', "'", '<a&b>']

def any_text(d, hi=8, no='_'):
    """ no '_' (field separator), no surrogates (not encodable) """
    return d.text(1, hi, no)


CSV_POOL = ['a', '1', 'B', '-', '.', 'é', 'ß', '☕', '\U0001f4b6', '/', '%',
        '=', '+', ':', ',', '"', '0', '9']


def csv_text(d):
    """ for machine readable forms that are split at ';' and stripped """
    s = d.list(1, 8, lambda i: d.choice(CSV_POOL))
    if len(s) > 1 and d.bool(1, 4):
        # blanks inside
        s.insert(d.int(1, len(s) - 1), d.choice([' ', '  ', ' - ', '\t']))
    return ''.join(s)


def reg_id(d):
    return d.choice(TEXT_POOL) if d.bool() else any_text(d)


def _collides(pool):
    """ no serial of the pool may be mistaken for another one """
    seen = {}
    for n in pool:
        for i in range(4):
            s = n + 7 * i + 1000003 * i
            a = abs(s)
            keys = {a}
            for f in ('%x' % a, '%d' % a):
                keys.add(int(f, 16))
                if f.isdigit():
                    keys.add(int(f))
            for k in keys:
                if seen.setdefault(k, n) != n:
                    return True
    return False


SERIALS = [1, 12, 0x7f, 255, 0x8000, 123456789, 0xdeadbeef, 0x99999999 + 6,
        987654321098765432, 2 ** 63 - 25, 2 ** 64 + 12345, 2 ** 127 - 1,
        2 ** 158 + 0x1234567, -5, -0x4d2f3a1, -(2 ** 70) + 11, 77777777777777,
        3141592653589793238462643383279]
assert not _collides(SERIALS)

FMTS = ['hex', 'hex', 'hex', 'dec', 'HEX', '0hex', '0dec', '-hex', '-dec']
ZDAS = ['AT1', 'AT1', 'AT2', 'AT3', 'AT10', 'DE7', 'XX123']
KIDS = ['U:ATU57780814-K0', 'U:ATU12345678', 'U:A', 'S:123456789',
        'S:987654321-K1', 'G:1234567890123', 'G:9999999999999-abc',
        'U:ATU12345678901-99', 'U:ATU57780814-1', 'S:000000000',
        'U:DE123456789', 'U:7-Z', 'U:BE0123456789-S1']


def devices(d, closed, n):
    sers = d.sample(SERIALS, n)
    kids = d.sample(KIDS, n) if closed else None
    out = []
    for i in range(n):
        chain = d.choice([0, 0, 1, 2, 3])
        # one key per device
        dev = {'k': (1 + i + 3 * d.int(0, 2)) * 4 + i, 'ser': sers[i],
                'chain': chain}
        if chain and d.bool(1, 4):
            dev['rsaroot'] = True
        if closed:
            dev['kid'] = kids[i]
        else:
            dev['zda'] = d.choice(ZDAS)
            dev['fmt'] = d.choice(FMTS)
        out.append(dev)
    return out


class Ids(object):
    """ distinct receipt IDs in one style """
    STYLES = ['num', 'num', 'pre', 'text', 'pad', 'mix', 'case']

    def __init__(self, d, style=None, taken=()):
        self.d = d
        self.style = style or d.choice(self.STYLES)
        self.k = d.choice([0, 1, 7, 95, 998, 10 ** 18])
        self.i = 0
        self.seen = set(taken)

    def next(self):
        k, i = self.k, self.i
        self.k += 1
        self.i += 1
        s = {
            'num': lambda: str(k),
            'pre': lambda: 'R%d' % k,
            'pad': lambda: '%020d' % k,
            # IDs that only differ in case, accents or leading zeros
            'case': lambda: ['a%d', 'A%d', 'a0%d', '\xe4%d'][i % 4] % (i // 4),
            'mix': lambda: '%s-%d/%d' % ('xyz'[i % 3], k, i),
            'text': lambda: any_text(self.d),
            'csv': lambda: csv_text(self.d),
        }[self.style]()
        while s in self.seen:
            s = s + '+'
        self.seen.add(s)
        return s


SMALL = [0, 0, 0, 1, -1, 99, 100, 101, -99, 5, 10, -10, 999, 123456, -123456,
        99999999, 10 ** 9, -10 ** 9]
BIG = [2 ** 39 - 1, -2 ** 39, 2 ** 38, 10 ** 11, 2 ** 53 + 1,
    -2 ** 53 - 1, 9007199254740993, 10 ** 17 + 1, 2 ** 63 - 1, -2 ** 63,
    2 ** 64, 2 ** 100 + 7, 2 ** 127 - 1]


def cents(d):
    return d.choice(SMALL) if d.bool() else d.int(-10 ** 6, 10 ** 6)


def turnover(d, big=True):
    k = d.int(0, 11)
    if k <= 2:
        return [0] * 5
    if k == 3:
        # five sums that cancel each other out
        a, b = cents(d), cents(d)
        return d.perm([a, -a, b, -b, 0])
    if k == 8 and big:
        c = [0] * 5
        c[d.int(0, 4)] = d.choice(BIG)
        return c
    if k <= 8:
        c = [0] * 5
        c[d.int(0, 4)] = cents(d)
        return c
    return [cents(d) for _ in range(5)]


def fit(c, counter, size):
    """ a turnover that keeps the counter representable """
    if -MAXCNT[size] - 1 <= counter + sum(c) <= MAXCNT[size]:
        return c
    room = MAXCNT[size] - counter if sum(c) > 0 else -MAXCNT[size] - 1 - counter
    return [0, 0, room, 0, 0]


class Walk(object):
    """ draws a conforming sequence of receipts """
    def __init__(self, d, ndev, size, ids, first=True, t=None,
            mixed_sizes=False, broken_rate=4, counter=0, prev_broken=False,
            need=False):
        self.d = d
        self.ndev = ndev
        self.size = self.sz = size
        self.ids = ids
        self.first = first
        self.t = d.choice(BASES) if t is None else t
        self.mixed = mixed_sizes
        self.rate = broken_rate
        self.counter = counter
        self.prev_broken = prev_broken
        self.need = need
        self.dev = 0
        self.streak = 0

    def next(self, i=0):
        d = self.d
        self.t = min(T_MAX, self.t + d.choice([0, 0, 1, 1, 59, 3600, 86400,
            31 * 86400, 10 ** 8]))
        if self.ndev > 1 and d.bool(1, 4):
            self.dev = d.int(0, self.ndev - 1)
        if self.first or self.need:
            r = {'c': [0] * 5, 'k': 'S', 'b': False}
        else:
            if self.streak:
                self.streak -= 1
                k = d.choice('RRRRRRRD')
            else:
                k = d.choice('SSSSSSSDDRR')
                if d.bool(1, 40):
                    # a long run of reversals
                    self.streak = d.int(3, 20)
            b = d.bool(3, 4) if self.prev_broken \
                    else bool(self.rate) and d.bool(self.rate, 16)
            c = turnover(d)
            if not self.streak and d.bool(1, 8):
                r = {'c': [0] * 5, 'k': 'S', 'b': False}
            else:
                r = {'c': c, 'k': k, 'b': b}
        if self.mixed and d.bool(1, 3):
            self.sz = d.int(self.size, 16)
        if r['k'] != 'D':
            r['c'] = fit(r['c'], self.counter, self.size)
            self.counter += sum(r['c'])
        if not self.first:
            if not any(r['c']) and r['k'] == 'S' and not r['b']:
                self.need = False
            elif not r['b']:
                self.need = self.prev_broken
        self.first = False
        self.prev_broken = r['b']
        r.update({'id': self.ids.next(), 't': self.t, 'd': self.dev})
        if self.sz != self.size:
            r['sz'] = self.sz
        return r


def world(d, min_recs=1, max_recs=14, multi=None, closed=None, id_style=None,
        maxdev=3, broken_rate=None, aes=None, reg=None, mixed_sizes=True,
        ndev=None):
    cl = d.bool() if closed is None else closed
    mu = d.bool() if multi is None else multi
    ndev = ndev or d.int(1, maxdev)
    devs = devices(d, cl, ndev)
    size = d.choice([8, 5, 5, 6, 8, 8, 11, 16])
    br = d.choice([2, 0, 6]) if broken_rate is None else broken_rate
    w = Walk(d, ndev, size, Ids(d, id_style), broken_rate=br,
            mixed_sizes=mixed_sizes and d.bool(1, 5))
    spec = {'closed': cl,
            'reg': (csv_text(d) if id_style == 'csv' else reg_id(d))
                if reg is None else reg,
            'aes': d.int(0, 3) if aes is None else aes,
            'size': size, 'devs': devs,
            'recs': d.list(min_recs, max_recs, w.next)}
    if mu:
        n = len(spec['recs'])
        spec['multi'] = True
        spec['cuts'] = sorted({d.int(1, max(1, n - 1))
            for _ in range(d.int(0, 3))})
    return spec


# ---------------------------------------------------------- JSON documents

def scalar(d):
    return copy.deepcopy(d.choice(SCALARS))


SCALARS = [None, True, False, 0, 1, -3, 1.5, '', 'x', 'Belege-kompakt', '0',
        10 ** 20, [], {}]


def json_value(d, depth=2):
    k = d.int(0, 9)
    if k < 7 or not depth:
        return scalar(d)
    if k == 7:
        return [json_value(d, depth - 1) for _ in range(d.int(0, 3))]
    return {d.choice(['a', 'b', '', 'id', 'item', 'Belege-kompakt']):
            json_value(d, depth - 1) for _ in range(d.int(0, 2))}


# ------------------------------------------------------- verification paths

def layout(d):
    return {'order': d.int(0, 5) if d.bool() else [d.int(0, 5)
                for _ in range(d.int(1, 3))],
            'indent': d.choice([None, None, 1]), 'ascii': d.bool(),
            'bom': d.bool(), 'extra': d.choice([False, False, True, 'empty',
                'dots'])}


def path(d, n=20, real=False, parsers=None):
    """ a way to verify a DEP of about n receipts (see paths.run_path) """
    p = d.choice(parsers or ['dep', 'dict', 'dict', 'full', 'file', 'file',
        'text', 'stream', 'fulltext'])
    if p == 'dep':
        return {'p': 'dep'}
    out = {'p': p, 'chunk': d.choice([0, 1, 2, 3, 4, 5, 6, d.int(0, n + 1), n,
        n + 1, 100000])}
    if p in ('dict', 'full', 'fulltext'):
        out['nparts'] = d.choice([1, 1, 2, 3, 5])
    if p != 'dict':
        out['layout'] = layout(d)
        if p == 'stream':
            if out['chunk']:
                out['layout']['order'] = d.int(0, 1)
            out['layout']['bom'] = False
    out['nprocs'] = d.choice([1, 1, 2, 3, 4, 7, 30])
    pool = d.choice([None, 'pickle', 'pickle'] + (['real'] if real else []))
    if pool:
        out['pool'] = pool
        if pool == 'pickle':
            out['batch'] = d.int(1, 4)
            out['lazy'] = d.bool()
            out['reverse'] = d.bool()
    return out
