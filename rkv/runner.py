"""
Driver shared by all checks.

A check module defines ID, TITLE, RULE and SUBS, a list of Sub objects.  Each
sub-check has a generator for JSON-able cases and a function run(case, ctx)
which raises Violation if the property does not hold for the case.  All random
choices are drawn through gen.D, seeded from VERIF_SEED; the number of cases is
fixed per tier, so a run is a function of the tree and the seed.
"""
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import random
import signal
import sys
import time
import traceback

from . import env
from . import gen

WORKERS = 8
CASE_CPU_LIMIT = 90           # seconds of CPU time for one case: "hangs"
WALL_LIMIT = {'quick': 840, 'thorough': 6 * 3600}


class Violation(Exception):
    pass


class Sub(object):
    def __init__(self, name, gen, run, quick, thorough=None, shrink=True):
        self.name = name
        self.gen = gen                 # function(gen.D) -> JSON-able case
        self.run = run
        self.n = {'quick': quick,
                'thorough': thorough if thorough is not None else quick * 20}
        self.shrink = shrink


class Ctx(object):
    """ per case book keeping """
    def __init__(self):
        self.labels = []
        self.nontrivial = True

    def label(self, *names):
        self.labels.extend(names)

    def trivial(self):
        self.nontrivial = False


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def expect_eq(got, want, what):
    if got != want:
        raise Violation('%s\n  got:      %s\n  expected: %s' % (what,
            short(got), short(want)))


def short(x, n=1500):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...(%d chars)' % len(s)


def case_key(sub, case):
    return hashlib.sha256((sub + json.dumps(case, sort_keys=True,
        default=str)).encode('utf-8', 'surrogatepass')).hexdigest()[:16]


class Hang(BaseException):
    pass


def _tick(signum, frame):
    raise Hang()


def run_case(sub, case):
    """ -> (ctx, None or error text); harness problems propagate """
    ctx = Ctx()
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    try:
        sub.run(case, ctx)
        return ctx, None
    except Violation as e:
        return ctx, str(e)
    except Hang:
        return ctx, 'HANG: no answer after %d s of CPU time' % CASE_CPU_LIMIT
    except Exception as e:
        frames = traceback.extract_tb(e.__traceback__)
        in_repo = any(f.filename.startswith(env.REPO + '/') for f in frames)
        if isinstance(e, (MemoryError, ImportError)) or (not in_repo and
                isinstance(e, OSError)):
            # the sandbox's problem, not the code under test's
            raise
        # (Without a frame of the code under test it gave something back that
        # is not of the expected form at all.)
        return ctx, 'unexpected %s: %s\n%s' % (type(e).__name__, short(str(e),
            500), ''.join(traceback.format_tb(e.__traceback__)[-4:]))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _seed(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8],
            'big')


def regressions(check_id):
    p = os.path.join(env.VERIF, 'rkv', 'regress', check_id + '.jsonl')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [json.loads(l) for l in f if l.strip()]


def worker(mod_name, tier, seed, shard, conn, scale):
    env.die_with_parent()
    _own_group(0)
    try:
        res = _worker(mod_name, tier, seed, shard, scale)
    except BaseException:
        res = {'error': traceback.format_exc()}
    try:
        for m in ('rkv.paths', 'rkv.lang'):
            if m in sys.modules:
                sys.modules[m].cleanup()
    except Exception:
        pass
    conn.send(json.dumps(res, default=str))
    conn.close()
    sys.stdout.flush()
    os._exit(0)


def _own_group(pid):
    # what a worker starts can be ended together with it
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass


def _worker(mod_name, tier, seed, shard, scale):
    signal.signal(signal.SIGPROF, _tick)
    mod = importlib.import_module(mod_name)
    out = {'subs': {}, 'labels': {}, 'hashes': [], 'samples': [],
            'violation': None}
    hashes = set()

    def account(sub, case, ctx, st):
        st['evaluations'] += 1
        for l in ctx.labels:
            k = sub.name + '/' + l
            out['labels'][k] = out['labels'].get(k, 0) + 1
        if ctx.nontrivial:
            st['nontrivial'] += 1
            h = case_key(sub.name, case)
            if h not in hashes:
                hashes.add(h)
                if len(hashes) % 97 == 5 and len(out['samples']) < 2:
                    s = json.dumps(case, default=str)
                    out['samples'].append({'sub': sub.name,
                        'labels': ctx.labels,
                        'case': case if len(s) < 3000 else s[:3000] + '...'})

    subs = {s.name: s for s in mod.SUBS}
    if shard == 0:
        for reg in regressions(mod.ID):
            sub = subs[reg['sub']]
            st = out['subs'].setdefault('regressions', {'evaluations': 0,
                'nontrivial': 0, 's': 0})
            ctx, err = run_case(sub, reg['case'])
            account(sub, reg['case'], ctx, st)
            if err:
                out['violation'] = {'sub': sub.name, 'case': reg['case'],
                        'error': err}
                out['hashes'] = sorted(hashes)
                return out

    for sub in mod.SUBS:
        total = int(sub.n[tier] * scale * (getattr(mod, 'QUICK', 2)
            if tier == 'quick' else 1))
        n = total // WORKERS + (1 if shard < total % WORKERS else 0)
        st = out['subs'].setdefault(sub.name, {'evaluations': 0,
            'nontrivial': 0, 's': 0})
        t0 = time.time()
        for i in range(n):
            size = (i + 1.0) / n if n > 4 else 1.0
            d = gen.D(random.Random(_seed(seed, mod.ID, sub.name, shard, i)),
                    size=size)
            # the JSON form is what a replay file will contain
            case = json.loads(json.dumps(sub.gen(d)))
            ctx, err = run_case(sub, case)
            account(sub, case, ctx, st)
            if err is None:
                continue
            if sub.shrink and not err.startswith('HANG'):
                small = gen.shrink(sub.gen, lambda c: run_case(sub,
                    json.loads(json.dumps(c)))[1], d.rec, size)
                if small:
                    case, err = json.loads(json.dumps(small[1])), small[2]
            out['violation'] = {'sub': sub.name, 'case': case, 'error': err}
            break
        st['s'] = round(time.time() - t0, 2)
        if out['violation']:
            break
    out['hashes'] = sorted(hashes)
    return out


def _report_violation(mod, v, quiet=False):
    d = os.path.join(env.VERIF, 'replays', mod.ID)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, case_key(v['sub'], v['case']) + '.json')
    with open(p, 'w') as f:
        json.dump({'property': mod.ID, 'sub': v['sub'], 'case': v['case'],
            'error': v['error']}, f, indent=1)
    print('sub-check %s: %s' % (v['sub'], ascii_only(short(v['error'], 4000))))
    print('VIOLATION property=%s replay=%s' % (mod.ID, p))
    sys.stdout.flush()


def ascii_only(s):
    return s.encode('ascii', 'backslashreplace').decode('ascii')


def module_for(check_id):
    return 'rkv.checks.' + check_id.lower()


def replay(check_id, path):
    signal.signal(signal.SIGPROF, _tick)
    mod = importlib.import_module(module_for(check_id))
    with open(path) as f:
        data = json.load(f)
    sub = {s.name: s for s in mod.SUBS}[data['sub']]
    ctx, err = run_case(sub, data['case'])
    if err:
        print(ascii_only(err))
        print('VIOLATION property=%s replay=%s' % (mod.ID, path))
        return 1
    print('case passes')
    return 0


def main(argv):
    check_id = argv[0]
    if len(argv) > 1 and argv[1] == '--replay':
        return replay(check_id, argv[2])
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    scale = float(os.environ.get('RKV_SCALE', '1'))
    t0 = time.time()
    name = module_for(check_id)
    mod = importlib.import_module(name)

    procs = []
    mp = multiprocessing.get_context('fork')
    for shard in range(WORKERS):
        a, b = mp.Pipe(False)
        p = mp.Process(target=worker, args=(name, tier, seed, shard, b, scale))
        p.start()
        _own_group(p.pid)
        b.close()
        procs.append((p, a))

    results = []
    violation = None
    errors = []
    deadline = t0 + WALL_LIMIT[tier]
    pending = dict((a, p) for p, a in procs)
    while pending and violation is None:
        ready = multiprocessing.connection.wait(list(pending),
                timeout=max(0.1, deadline - time.time()))
        if not ready:
            errors.append('time budget exhausted')
            break
        for a in ready:
            p = pending.pop(a)
            try:
                r = json.loads(a.recv())
            except EOFError:
                p.join()
                errors.append('worker ended with %s' % p.exitcode)
                continue
            if 'error' in r:
                errors.append(r['error'])
                continue
            results.append(r)
            if r['violation'] and violation is None:
                violation = r['violation']
    for p, a in procs:
        if p.is_alive() and pending:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                p.kill()
        p.join()

    known_lines = []
    if violation is None and not errors and hasattr(mod, 'known'):
        known_lines = mod.known()

    labels = {}
    subs = {}
    hashes = set()
    samples = []
    for r in results:
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r['subs'].items():
            s = subs.setdefault(k, {'evaluations': 0, 'nontrivial': 0, 's': 0})
            s['evaluations'] += v['evaluations']
            s['nontrivial'] += v['nontrivial']
            s['s'] = max(s['s'], v['s'])
        hashes.update(r['hashes'])
        samples += r['samples']
    ev = {
        'property': mod.ID, 'tier': tier, 'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': sum(s['evaluations'] for s in subs.values()),
            'distinct_nontrivial': len(hashes),
            'rule': mod.RULE,
            'samples': samples[:6],
            'sub_checks': subs,
            'classes': dict(sorted(labels.items())),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if violation else 0,
    }
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(env.VERIF, 'evidence', mod.ID + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    for l in known_lines:
        print(ascii_only(l))
    if violation:
        _report_violation(mod, violation)
        return 1
    if errors:
        for e in errors:
            print('HARNESS ERROR: ' + ascii_only(e), file=sys.stderr)
        return 2
    print('%s: %d cases, %d distinct non-trivial, %.1f s' % (mod.ID,
        ev['coverage']['evaluations'], len(hashes), ev['wall_s']))
    return 0
