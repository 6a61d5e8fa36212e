"""Recorded choice sequences: the source of all randomness of a generated case.

Every decision a generator takes is one bounded integer drawn here.  The list of
drawn integers identifies the case, so a case can be replayed and shrunk without
knowing anything about what is generated (0 is always the simplest choice)."""
import random


class Choices:
    def __init__(self, rng=None, prefix=None, dic=None):
        self.rng = rng
        self.prefix = prefix
        self.rec = []
        self.dic = dic or []          # dictionary of interesting integers (harvested)

    def n(self, k):
        """Integer in [0, k)."""
        if k <= 1:
            return 0
        i = len(self.rec)
        if self.prefix is not None:
            v = self.prefix[i] if i < len(self.prefix) else 0
            if v >= k:
                v = v % k
        else:
            v = self.rng.randrange(k)
        self.rec.append(v)
        return v

    def p(self, num, den=100):
        """True with probability num/den; False is the simple outcome."""
        return self.n(den) >= den - num

    def pick(self, seq):
        return seq[self.n(len(seq))]

    def int(self, lo, hi):
        """Integer in [lo, hi], ends and dictionary values favoured; shrinks to lo."""
        if hi - lo < 12:
            return lo + self.n(hi - lo + 1)
        k = self.n(10)
        if k == 0:
            return lo
        if k == 1:
            return hi
        if k == 2:
            return lo + 1 + self.n(3)
        if k == 3:
            return hi - self.n(3)
        if k == 4:
            # power of two neighbourhood
            span = hi - lo
            b = self.n(span.bit_length() + 1)
            v = lo + (1 << b) - 1 + self.n(3)
            return min(max(v, lo), hi)
        if k == 5 and self.dic:
            v = self.dic[self.n(len(self.dic))] - 1 + self.n(3)
            if lo <= v <= hi:
                return v
            return lo + v % (hi - lo + 1)
        if k == 6:
            return lo + self.n(min(hi - lo + 1, 256))
        return lo + self.n(hi - lo + 1)

    def small(self, lo, hi):
        """Integer in [lo, hi], small values much more likely."""
        span = hi - lo + 1
        k = self.n(4)
        if k < 2:
            return lo + self.n(min(span, 3))
        if k == 2:
            return lo + self.n(min(span, 8))
        return lo + self.n(span)

    def blob(self, length, exclude=()):
        """Bytes of the given length from one recorded seed."""
        s = self.n(1 << 24)
        if length <= 0:
            return b''
        if s == 0:
            return bytes(length)
        r = random.Random(s)
        mode = s % 3
        if mode == 0:
            return bytes(r.randrange(256) for _ in range(length))
        if mode == 1:
            return bytes(r.choice(b'\x00\x01\x7f\x80\xfe\xff\x20A') for _ in range(length))
        return bytes(r.randrange(32, 127) for _ in range(length))

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            # 0 keeps the order
            j = i - self.n(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def subset(self, seq, num=50):
        return [x for x in seq if self.p(num)]


def shrink(prefix, still_fails, budget=400):
    """Greedy shrinking of a choice sequence.  still_fails(list) -> bool."""
    cur = list(prefix)
    used = 0

    def attempt(cand):
        nonlocal cur, used
        if used >= budget or cand == cur:
            return False
        used += 1
        if still_fails(cand):
            cur = cand
            return True
        return False

    while cur and cur[-1] == 0:
        cur.pop()
    improved = True
    while improved and used < budget:
        improved = False
        size = max(1, len(cur) // 2)
        while size >= 1 and used < budget:
            i = 0
            while i < len(cur) and used < budget:
                if attempt(cur[:i] + cur[i + size:]):
                    improved = True
                elif any(cur[i:i + size]) and attempt(
                        cur[:i] + [0] * len(cur[i:i + size]) + cur[i + size:]):
                    improved = True
                    i += size
                else:
                    i += size
            size //= 2
        for i in range(len(cur)):
            if used >= budget:
                break
            v = cur[i] if i < len(cur) else 0
            lo = 0
            while v > 0 and used < budget:
                mid = (lo + v) // 2
                if mid == v:
                    break
                if attempt(cur[:i] + [mid] + cur[i + 1:]):
                    v = mid
                    improved = True
                else:
                    lo = mid + 1
                    if lo >= v:
                        break
    while cur and cur[-1] == 0:
        cur.pop()
    return cur
