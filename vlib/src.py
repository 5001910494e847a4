"""Recorded random choices: every generated case is a function of a list of
integers, so any failing case can be shrunk generically and replayed."""
import random, time


class Overrun(Exception):
    pass


class Src:
    def __init__(self, seed=None, choices=None, limit=200000):
        self.rnd = random.Random(seed) if choices is None else None
        self.given = choices
        self.rec = []
        self.limit = limit

    def below(self, n):
        """integer in [0, n); 0 is the simplest"""
        if n <= 1:
            return 0
        if self.rnd is not None:
            v = self.rnd.randrange(n)
        else:
            i = len(self.rec)
            v = self.given[i] % n if i < len(self.given) else 0
        self.rec.append(v)
        if len(self.rec) > self.limit:
            raise Overrun()
        return v

    def range(self, lo, hi):
        """inclusive; simplest is lo"""
        return lo + self.below(hi - lo + 1)

    def bool(self, num=1, den=2):
        """True with probability num/den; simplest is False"""
        return self.below(den) >= den - num

    def choice(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)], first is the simplest"""
        tot = sum(w for w, _ in pairs)
        x = self.below(tot)
        for w, v in pairs:
            if x < w:
                return v
            x -= w

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.below(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def size(self, mx):
        """geometric-ish size in [0, mx], small favoured"""
        k = self.below(4)
        if k == 0:
            return self.below(min(3, mx + 1))
        if k == 1:
            return self.below(min(6, mx + 1))
        return self.below(mx + 1)


def shrink(choices, fails, budget=400, seconds=60):
    """Greedy minimisation. fails(choices) -> recorded choices or None."""
    best = list(choices)
    calls = [0]
    t_end = time.time() + seconds

    def attempt(c):
        if calls[0] >= budget or time.time() > t_end:
            calls[0] = budget
            return None
        calls[0] += 1
        r = fails(c)
        if r is None:
            return None
        r = list(r)
        if (len(r), r) < (len(best), best):
            return r
        return None

    improved = True
    while improved and calls[0] < budget:
        improved = False
        k = max(1, len(best) // 2)
        while k >= 1 and calls[0] < budget:
            i = 0
            while i < len(best) and calls[0] < budget:
                r = attempt(best[:i] + best[i + k:])
                if r is None and k > 1:
                    r = attempt(best[:i] + [0] * len(best[i:i + k]) + best[i + k:]) if any(best[i:i + k]) else None
                if r is not None:
                    best = r
                    improved = True
                else:
                    i += k
            k //= 2
        i = 0
        while i < len(best) and calls[0] < budget:
            v = best[i]
            for nv in (0, v // 2, v - 1):
                if 0 <= nv < v:
                    r = attempt(best[:i] + [nv] + best[i + 1:])
                    if r is not None:
                        best = r
                        improved = True
                        break
            i += 1
    return best
