"""
A small property-based testing engine: generators draw from a D object that
records every random choice, so failures are shrunk on the recorded choice
sequence (delete list elements, zero and lower choices) and every shrunk case
is again something the generator can produce.
"""
import random
import time

POOL = ['a', '1', 'B', ' ', '-', '.', 'é', 'ß', '☕', '\U0001f4b6', 'İ',
        '"', '\\', '/', '%', '{', '}', "'", '\t', '\n', '=', '+', ':', ',',
        '\x00', '\u2028', '<', '&', 'Ω', '٣', '\ufeff', '0', '9', 'z', ';']


class D(object):
    def __init__(self, rng=None, replay=None, size=1.0):
        self.rng = rng
        self.replay = replay
        self.size = size
        self.rec = []            # (value, range)
        self.lists = []          # (count position, [(start, end)...])

    def _draw(self, n):
        """ an int in [0, n) """
        if n <= 1:
            return 0
        i = len(self.rec)
        if self.replay is not None:
            v = self.replay[i] if i < len(self.replay) else 0
            if v >= n:
                v = n - 1
        else:
            v = self.rng.randrange(n)
        self.rec.append(v)
        return v

    def int(self, lo, hi):
        return lo + self._draw(hi - lo + 1)

    def bool(self, num=1, den=2):
        """ True with probability num/den; shrinks to False """
        return self._draw(den) >= den - num

    def choice(self, seq):
        return seq[self._draw(len(seq))]

    def weighted(self, *pairs):
        """ weighted(3, a, 1, b, ...) """
        ws = pairs[0::2]
        v = self._draw(sum(ws))
        for w, x in zip(ws, pairs[1::2]):
            if v < w:
                return x
            v -= w

    def sample(self, seq, k):
        left = list(seq)
        return [left.pop(self._draw(len(left))) for _ in range(k)]

    def perm(self, seq):
        return self.sample(seq, len(seq))

    def upto(self, lo, hi):
        """ a length, scaled with the size of the case """
        return self.int(lo, max(lo, min(hi, lo + int((hi - lo) * self.size + .5))))

    def list(self, lo, hi, f):
        """ [f(i)...] of a drawn length """
        pos = len(self.rec)
        n = self.upto(lo, hi)
        spans = []
        out = []
        self.lists.append((pos, lo, spans))
        for i in range(n):
            a = len(self.rec)
            out.append(f(i))
            spans.append((a, len(self.rec)))
        return out

    def char(self, pool=POOL, no=''):
        k = self._draw(8)
        if k < 5:
            c = self.choice(pool)
        elif k < 7:
            c = chr(self.int(32, 126))
        else:
            v = self.int(0, 0x10ffff - 0x800)
            c = chr(v if v < 0xd800 else v + 0x800)
        if c in no:
            c = 'x'
        return c

    def text(self, lo=0, hi=8, no='', pool=POOL):
        return ''.join(self.list(lo, hi, lambda i: self.char(pool, no)))

    def bytes(self, lo, hi):
        return bytes(self.list(lo, hi, lambda i: self.int(0, 255)))


def shrink(gen, fails, choices, size, seconds=40):
    """
    :param gen: generator function
    :param fails: function(case) -> error text or None
    :return: (choices, case, error) of a small failing case
    """
    end = time.time() + seconds
    seen = set()
    best = {}

    def attempt(cs):
        cs = list(cs)
        k = tuple(cs)
        if k in seen or time.time() > end:
            return False
        seen.add(k)
        d = D(replay=cs, size=size)
        try:
            case = gen(d)
            err = fails(case)
        except Exception:
            return False
        if err is None:
            return False
        rec = d.rec
        old = best.get('rec')
        if old is not None and (len(rec), rec) >= (len(old), old):
            return False
        best.update(rec=rec, lists=d.lists, case=case, err=err)
        return True

    attempt(choices)
    if not best:
        return None
    progress = True
    while progress and time.time() < end:
        progress = False
        # drop list elements
        i = 0
        while i < len(best['lists']) and time.time() < end:
            pos, lo, spans = best['lists'][i]
            again = False
            n = len(spans)
            step = max(1, n // 2)
            while step and not again:
                for j in range(0, n - step + 1, step):
                    if n - step < lo or pos >= len(best['rec']):
                        break
                    cs = list(best['rec'])
                    cs[pos] = max(0, cs[pos] - step)
                    a, b = spans[j][0], spans[j + step - 1][1]
                    del cs[a:b]
                    if attempt(cs):
                        again = progress = True
                        break
                step //= 2
            if not again:
                i += 1
        # delete arbitrary runs
        for step in (8, 4, 2, 1):
            j = 0
            while j < len(best['rec']) and time.time() < end:
                cs = best['rec'][:j] + best['rec'][j + step:]
                if attempt(cs):
                    progress = True
                else:
                    j += step
        # zero runs, then lower single choices
        for step in (8, 4, 2, 1):
            j = 0
            while j < len(best['rec']) and time.time() < end:
                cs = list(best['rec'])
                if any(cs[j:j + step]):
                    cs[j:j + step] = [0] * len(cs[j:j + step])
                    if attempt(cs):
                        progress = True
                j += step
        j = 0
        while j < len(best['rec']) and time.time() < end:
            lo, hi = 0, best['rec'][j]
            while lo < hi and time.time() < end:
                mid = (lo + hi) // 2
                cs = list(best['rec'])
                cs[j] = mid
                if attempt(cs):
                    progress = True
                    hi = mid if j < len(best['rec']) else 0
                else:
                    lo = mid + 1
            j += 1
    return best['rec'], best['case'], best['err']
