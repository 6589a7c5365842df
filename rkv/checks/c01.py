from .. import sim
from ..paths import run_path, DEP
from ..ref import ref_verify, ref_norm
from ..runner import Sub, expect, expect_eq, Violation
from ..strategies import world, path

ID = 'C01'
TITLE = 'Valid data collection protocols are accepted with the exact state'
RULE = ('a case counts if the DEP has at least two receipts; distinct by the '
        'full scenario')


def run(case, ctx):
    w = sim.World(case['w'])
    dep = w.dep()
    with_key = case['key']
    ks = w.keystore(trust='all')
    key = w.aes if with_key else None
    r = ref_verify(dep, ks, key)
    if r[0] != 'ok':
        raise AssertionError('simulator and reference disagree: %r' % (r,))
    got = run_path(dep, ks, key, case['path'])
    expect(got[0] == 'ok', 'valid DEP rejected: %s', got[1:])
    expect_eq(got[1], ref_norm(r[1]), 'wrong state')
    if len(w.jws) < 2:
        ctx.trivial()
    kinds = {x['k'] for x in case['w']['recs']}
    ctx.label('closed' if w.closed else 'open', case['path']['p'],
            'groups%d' % min(3, len(dep['Belege-Gruppe'])),
            *['kind' + k for k in sorted(kinds)])
    if any(x['b'] for x in case['w']['recs']):
        ctx.label('broken')


def gen(d):
    return {'w': world(d, max_recs=20), 'key': d.bool(3, 4), 'path': path(d)}


def gen_long(d):
    n = d.int(60, 300)
    return {'w': world(d, min_recs=n, max_recs=n), 'key': d.bool(3, 4),
            'path': path(d, n)}


SUBS = [Sub('accept', gen, run, 8000), Sub('long', gen_long, run, 40)]
