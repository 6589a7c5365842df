from .. import sim
from ..runner import Sub, expect_eq, expect
from ..strategies import world, path, devices
from .common import compare

ID = 'C05'
TITLE = 'Signature device failures and repairs follow the recovery protocol'
RULE = ('a case counts if its word of receipt types contains a receipt with '
        'failed signature device; distinct by word, devices and path')

# n: signed null  t: signed turnover  c: signed, amounts cancel out
# d/D: signed dummy, without/with amounts  r/R: signed reversal
# B: broken turnover  N: broken null  X: broken dummy  Y: broken reversal
LETTERS = 'ntcdDrRBNXYBN'
TYPES = {
    'n': ([0] * 5, 'S', False), 't': ([123, 0, 0, 0, 0], 'S', False),
    'c': ([50, 0, -50, 0, 0], 'S', False), 'd': ([0] * 5, 'D', False),
    'D': ([0, 7, 0, 0, 0], 'D', False), 'r': ([0] * 5, 'R', False),
    'R': ([0, 0, 0, 0, -3], 'R', False), 'B': ([0, 5, 0, 0, 0], 'S', True),
    'N': ([0] * 5, 'S', True), 'X': ([0] * 5, 'D', True),
    'Y': ([0, 0, 1, 0, 0], 'R', True)}


def automaton(word):
    """
    (index of the first receipt that violates the protocol or None, whether a
    null receipt is due at the end); the word does not include the start
    receipt
    """
    broken = False
    due = False
    for i, x in enumerate(word):
        if x == 'n':
            due = broken = False
            continue
        if due:
            return i, due
        b = x in 'BNXY'
        due = broken and not b
        broken = b
    return None, due


def gen(d):
    cl = d.bool()
    ndev = d.int(1, 2)
    n = d.int(1, 3) if d.bool(1, 4) else d.int(3, 12)
    word = ''.join(d.choice(LETTERS) for _ in range(n))
    return {'closed': cl, 'devs': devices(d, cl, ndev), 'word': word,
            'dev': [d.int(0, ndev - 1) for _ in range(n + 1)]
                if d.bool() else [0] * (n + 1), 'multi': d.bool(1, 3),
            'key': d.bool(), 'path': path(d, n)}


def spec(case):
    recs = [{'id': '0', 't': 10 ** 9, 'c': [0] * 5, 'k': 'S', 'd':
        case['dev'][0], 'b': False}]
    for i, x in enumerate(case['word']):
        c, k, b = TYPES[x]
        recs.append({'id': str(i + 1), 't': 10 ** 9 + i, 'c': c, 'k': k,
            'b': b, 'd': case['dev'][i + 1]})
    return {'closed': case['closed'], 'reg': 'reg', 'aes': 1, 'size': 8,
            'devs': case['devs'], 'recs': recs, 'multi': case['multi']}


def run(case, ctx):
    w = sim.World(spec(case))
    word = case['word']
    bad, due = automaton(word)
    if not set(word) & set('BNXY'):
        ctx.trivial()
    ctx.label('len%d' % len(word), 'reject' if bad is not None else
            'due' if due else 'fine')
    r = compare(ctx, w.dep(), w.keystore(trust='all'), w.aes if case['key']
            else None, case['path'], want='ok' if bad is None else 'bad',
            cls=case['path']['p'] == 'dep')
    if r[0] == 'bad':
        expect_eq(r[1], 'no-restore', 'reference')
    elif r[0] == 'ok':
        expect_eq(r[1].regs[0]['needRestoreReceipt'], due, 'reference state')


def gen_valid(d):
    """ words that follow the protocol, with failures in most of them """
    c = gen(d)
    word = ''
    for x in c['word']:
        word += x
        if automaton(word)[0] is not None:
            word = word[:-1] + 'n'
    c['word'] = word
    return c


SUBS = [Sub('words', gen, run, 5000), Sub('conforming', gen_valid, run, 3500)]
