"""Choice-sequence engine: every random decision of a generator is a draw of a bounded integer, so that a
case is a list of integers that can be replayed and shrunk (as in minithesis / Hypothesis)."""
import hashlib, random


class Stop(Exception):
    """the choice sequence ran out / was invalid for this generator"""


class Ch:
    def __init__(self, seed=None, prefix=None, limit=20000):
        self.rng = random.Random(seed) if seed is not None else None
        self.prefix = prefix
        self.seq = []
        self.limit = limit

    def draw(self, n):
        """integer in [0, n)"""
        if n <= 1:
            return 0
        i = len(self.seq)
        if i >= self.limit:
            raise Stop()
        if self.prefix is not None:
            v = self.prefix[i] if i < len(self.prefix) else 0
            if v >= n:
                v = n - 1
        else:
            v = self.rng.randrange(n)
        self.seq.append(v)
        return v

    # simpler choices are smaller integers, so shrinking moves towards the first alternative
    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def pick(self, xs):
        return xs[self.draw(len(xs))]

    def chance(self, pct):
        """true with probability pct %; shrinks to false"""
        return self.draw(100) >= 100 - pct

    def weighted(self, pairs):
        """pairs: (weight, value)"""
        tot = sum(w for w, _ in pairs)
        r = self.draw(tot)
        for w, v in pairs:
            if r < w:
                return v
            r -= w

    def sample(self, xs, k):
        xs = list(xs)
        out = []
        for _ in range(min(k, len(xs))):
            out.append(xs.pop(self.draw(len(xs))))
        return out

    def shuffle(self, xs):
        return self.sample(xs, len(xs))

    def subset(self, xs, pct=50):
        return [x for x in xs if self.chance(pct)]

    def big(self, p):
        """interesting field element"""
        k = self.draw(12)
        if k == 0:
            return self.draw(3)
        if k <= 3:
            return self.draw(20)
        if k == 4:
            return (p - 1 - self.draw(10)) % p
        if k == 5:
            return (p // 2 - 3 + self.draw(7)) % p
        if k == 6:
            b = self.draw(p.bit_length())
            return ((1 << b) + self.draw(3) - 1) % p
        if k == 7:
            # machine word boundaries
            b = [8, 16, 31, 32, 33, 62, 63, 64, 65, 127, 128, 192, 253][self.draw(13)]
            return ((1 << b) - 2 + self.draw(4)) % p
        if k == 8:
            b = [31, 32, 63, 64][self.draw(4)]
            return (p - (1 << b) - 2 + self.draw(4)) % p
        v = 0
        nb = self.draw(p.bit_length() // 16 + 1)
        for _ in range(nb + 1):
            v = (v << 16) | self.draw(1 << 16)
        return v % p


def case_seed(seed, prop, idx):
    return int.from_bytes(hashlib.sha256(("%s|%s|%s" % (seed, prop, idx)).encode()).digest()[:8], "big")


def shrink(seq, fails, budget):
    """Greedy internal shrinking of a choice sequence; fails(seq) -> normalised seq or None."""
    best = list(seq)
    left = [budget]

    def attempt(c):
        if left[0] <= 0:
            return False
        left[0] -= 1
        r = fails(c)
        if r is not None and (len(r), r) < (len(best), best):
            best[:] = r
            return True
        return False
    improved = True
    while improved and left[0] > 0:
        improved = False
        # delete chunks
        k = max(1, len(best) // 2)
        while k >= 1 and left[0] > 0:
            i = len(best) - k
            while i >= 0 and left[0] > 0:
                if attempt(best[:i] + best[i + k:]):
                    improved = True
                else:
                    # deletion plus lowering the preceding counter
                    if i > 0 and best[i - 1] > 0 and k <= 8:
                        c = best[:i - 1] + [best[i - 1] - 1] + best[i + k:]
                        if attempt(c):
                            improved = True
                i -= k
                i = min(i, len(best) - k)
            k //= 2
        # zero chunks
        k = 8
        while k >= 1 and left[0] > 0:
            i = 0
            while i + k <= len(best) and left[0] > 0:
                if any(best[i:i + k]):
                    if attempt(best[:i] + [0] * k + best[i + k:]):
                        improved = True
                i += k
            k //= 2
        # lower values
        i = 0
        while i < len(best) and left[0] > 0:
            lo, hi = 0, best[i]
            while lo < hi and left[0] > 0:
                mid = (lo + hi) // 2
                if attempt(best[:i] + [mid] + best[i + 1:]):
                    improved = True
                    if i >= len(best):
                        break
                    hi = best[i]
                else:
                    lo = mid + 1
            i += 1
    return best
