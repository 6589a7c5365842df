""" shared by the checks that compare a verification with the reference """
from .. import sim
from ..paths import run_path, DEP, UNIQUE
from ..ref import ref_verify, ref_norm, EXC
from ..runner import expect, expect_eq, Violation


def compare(ctx, dep, ks, key, path, want=None, cls=None, state=None, idx=None,
        refstate=None, kso=None, backend=UNIQUE):
    """
    Verifies dep (JSON) along path and compares verdict and resulting state
    with the reference.
    :param want: None or the verdict the generator intended, 'ok' / 'bad'
    :param cls: True to compare the class of the exception as well
    """
    r = ref_verify(dep, ks, key, refstate, idx)
    if r[0] == '?':
        ctx.trivial()
        ctx.label('open-question')
        return r
    if want is not None and r[0] != want:
        raise AssertionError('generator meant %s, reference says %r' % (want,
            r[:2]))
    if r[0] == 'bad' and r[1] == 'no-cert' and path['p'] != 'dep':
        # known finding F20, see C09
        ctx.trivial()
        return r
    got = run_path(dep, kso or ks, key, path, state, idx,
            backend)
    ctx.label(path['p'])
    if r[0] == 'ok':
        ctx.label('accept')
        expect(got[0] == 'ok', 'conforming DEP rejected: %s', got[1:])
        expect_eq(got[1], ref_norm(r[1]), 'wrong state after verification')
    else:
        ctx.label('reject:' + r[1])
        expect(got[0] == 'bad', 'DEP accepted although: %s (receipt %r)',
                r[1], r[2])
        if cls:
            expect_eq(got[1], EXC[r[1]], 'wrong error for defect %r (%s)'
                    % (r[1], got[2]))
    return r
