import datetime

from .. import sim
from ..paths import receipt, algorithms
from ..runner import Sub, expect, expect_eq
from ..strategies import (world, any_text, csv_text, ZDAS, KIDS, SERIALS, FMTS,
        turnover, MAXCNT, BASES, T_MAX, TEXT_POOL)

ID = 'C14'
QUICK = 3
TITLE = 'Receipt formats convert into each other without loss'
RULE = ('a case counts if at least two conversions between different formats '
        'were made; distinct by receipt and conversions')
ASSUMPTIONS = ['receipts with a semicolon or outer white space in an ID have '
        'no CSV form and are not converted to CSV']

R = receipt.Receipt
FROM = {'jws': R.fromJWSString, 'qr': R.fromBasicCode, 'ocr': R.fromOCRCode,
        'csv': R.fromCSV}
TO = {'jws': R.toJWSString, 'qr': R.toBasicCode, 'ocr': R.toOCRCode,
        'csv': R.toCSV}
SIM = {'jws': lambda j: j, 'qr': sim.qr, 'ocr': sim.ocr, 'csv': sim.csv}


def gen(d):
    cl = d.bool()
    kind = d.choice('SSSDR')
    n = d.int(5, 16)
    if kind == 'S':
        raw = d.bytes(n, n)
    else:
        raw = {'D': b'TRA', 'R': b'STO'}[kind]
    sums = turnover(d)
    text = (lambda: csv_text(d)) if d.bool() else (lambda: d.choice(TEXT_POOL)
            if d.bool(1, 3) else any_text(d))
    sk = d.int(0, 5)
    sig = None if sk == 0 else d.bytes(64, 64) if sk < 4 else d.bytes(0, 90)
    return {'zda': 'AT0' if cl else d.choice(ZDAS), 'reg': text(),
            'rid': text(), 't': min(T_MAX, d.choice(BASES) + d.int(0, 10 ** 6)),
            'cents': sums, 'enc': raw.hex(), 'kind': kind,
            'serial': d.choice(KIDS) if cl else sim.fmt_serial(
                d.choice(SERIALS), d.choice(FMTS)),
            'chain': d.bytes(8, 8).hex(),
            'sig': None if sig is None else sig.hex(),
            'blanks': d.list(1, 5, lambda i: d.choice(['', ' ', '\t', '  ',
                '\r\n'])),
            'steps': d.list(2, 8, lambda i: d.choice(['jws', 'qr', 'ocr',
                'csv']))}


def run(case, ctx):
    sums = [sim.money(c) for c in case['cents']]
    pl = sim.payload('R1', case['zda'], case['reg'], case['rid'],
            sim.stamp(case['t']), sums, sim.b64(bytes.fromhex(case['enc'])),
            case['serial'], sim.b64(bytes.fromhex(case['chain'])))
    sig = sim.BROKEN_SIG if case['sig'] is None else bytes.fromhex(case['sig'])
    j = '.'.join([sim.b64u(sim.HEADER.encode()), sim.b64u(pl.encode('utf-8')),
        sim.b64u(sig)])
    ids = (case['reg'], case['rid'])
    csv_ok = not any(';' in x or x != x.strip() for x in ids)
    steps = [s for s in case['steps'] if csv_ok or s != 'csv']
    if len(set(steps)) < 2:
        ctx.trivial()
    ctx.label('csv' if csv_ok else 'nocsv', case['kind'],
            'sig%d' % min(len(sig), 65))
    cur = 'jws'
    s = j
    for to in steps:
        r, alg = FROM[cur](s)
        expect_eq(alg, 'R1', 'algorithm')
        expect_eq((r.zda, r.registerId, r.receiptId, r.dateTimeStr, r.sumAStr,
            r.sumBStr, r.sumCStr, r.sumDStr, r.sumEStr, r.encTurnoverCounter,
            r.certSerial, r.previousChain), tuple([case['zda'], case['reg'],
                case['rid'], sim.stamp(case['t'])] + sums + pl.split('_')[-3:]),
            'fields after parsing %s' % cur)
        expect_eq(r.dateTime, datetime.datetime(1970, 1, 1)
                + datetime.timedelta(seconds=case['t']), 'time')
        expect_eq((r.isDummy(), r.isReversal(), r.isSignedBroken()),
                (case['kind'] == 'D', case['kind'] == 'R',
                    sig == sim.BROKEN_SIG), 'type of receipt')
        expect_eq(bool(r.isNull()), not any(case['cents']), 'null receipt')
        expect_eq(r.turnover(), sum(case['cents']), 'turnover')
        expect_eq(r.toURLHash(alg), sim.url_hash(j), 'link hash')
        s = TO[to](r, alg)
        expect_eq(s, SIM[to](j), '%s -> %s' % (cur, to))
        cur = to
        ctx.label('to ' + to)
    for f in sorted(TO):
        if f == 'csv' and not csv_ok:
            continue
        r, alg = FROM[f](SIM[f](j))
        expect_eq(r.toJWSString(alg), j, '%s -> jws' % f)
        expect_eq(r.toPayloadString(alg), pl, 'payload')
    if csv_ok:
        # blanks around the fields do not matter
        b = case['blanks']
        x = ';'.join(b[i % len(b)] + c + b[(i + 1) % len(b)] for i, c in
                enumerate(sim.csv(j).split(';')))
        r, alg = R.fromCSV(x)
        expect_eq(r.toJWSString(alg), j, 'csv with blanks -> jws')


def gen_signed(d):
    sp = world(d, min_recs=1, max_recs=4, id_style='csv' if d.bool() else None)
    return {'w': sp}


def run_signed(case, ctx):
    """ really signed receipts stay valid in every form """
    w = sim.World(case['w'])
    for j, di in zip(w.jws, w.recdev):
        for f in sorted(SIM):
            x = SIM[f](j)
            if f == 'csv' and any(';' in x or x != x.strip()
                    for x in sim.fields(j)[1:3]):
                continue
            r, alg = FROM[f](x)
            expect_eq(r.toJWSString(alg), j, '%s -> jws' % f)
            ok = algorithms.ALGORITHMS[alg].verify(r.toJWSString(alg),
                    sim.pub(w.devs[di].key))
            expect_eq(bool(ok), not r.isSignedBroken(), 'signature')
            ctx.label(f)


SUBS = [Sub('formats', gen, run, 24000), Sub('signed', gen_signed, run_signed,
    2000)]
