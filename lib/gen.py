"""Choice-sequence generation with integrated shrinking.

A case is a pure function of a list of integers.  While exploring, the integers come from a
seeded generator; while shrinking or replaying they come from a list (missing ones are 0).
Every draw is "an integer from 0 to bound", and generators are written so that 0 is the
simplest value, so editing the list (deleting spans, lowering numbers) simplifies the case."""
import random, zlib


class Fail(Exception):
    """The property does not hold.  key names the specific failing thing (for known findings)."""
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg, self.key = msg, key


class Src:
    def __init__(self, seed=None, prefix=()):
        self.rng = random.Random(seed) if seed is not None else None
        self.prefix = prefix
        self.rec = []
        self.spans = []
        self.notes = []

    def n(self, bound):
        """integer 0..bound"""
        i = len(self.rec)
        if i < len(self.prefix):
            v = min(self.prefix[i], bound)
        elif self.rng is not None:
            v = self.rng.randint(0, bound)
        else:
            v = 0
        self.rec.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.n(hi - lo)

    def bool(self, p=0.5):
        """True with probability p; simplest is False"""
        return self.n(999) >= 1000 - int(p * 1000)

    def choice(self, seq):
        return seq[self.n(len(seq) - 1)]

    def weighted(self, pairs):
        """pairs of (weight, value); the first is the simplest"""
        tot = sum(w for w, _ in pairs)
        x = self.n(tot - 1)
        for w, v in pairs:
            if x < w: return v
            x -= w

    def size(self, lo, hi, borders=()):
        """a size, often near one of the borders"""
        b = [x for x in borders if lo <= x <= hi]
        k = self.n(3)
        if k == 0: return self.int(lo, min(hi, lo + 8))
        if k == 1 and b: return max(lo, min(hi, self.choice(b) + self.n(4) - 2))
        if k == 2: return self.int(lo, min(hi, max(lo, hi // 16)))
        return self.int(lo, hi)

    def list(self, elem, lo=0, hi=8, p=0.75):
        r = []
        while len(r) < hi:
            s = len(self.rec)
            if len(r) >= lo and not self.bool(p): break
            if len(r) < lo: pass
            r.append(elem())
            self.spans.append((s, len(self.rec)))
        return r

    def sample(self, seq, lo=0, hi=None):
        """a sub-list in order"""
        r = [x for x in seq if self.bool()]
        return r

    def shuffle(self, seq):
        r = list(seq)
        for i in range(len(r) - 1):
            j = i + self.n(len(r) - 1 - i)
            r[i], r[j] = r[j], r[i]
        return r

    def blob(self, size):
        """pseudo-random bytes named by one draw; 0 gives a readable pattern"""
        s = self.n(0xffff)
        return blob(s, size)

    def text(self, alphabet, lo=0, hi=12):
        return "".join(self.choice(alphabet) for _ in range(self.int(lo, hi)))

    def mark(self):
        return len(self.rec)

    def span(self, start):
        self.spans.append((start, len(self.rec)))


def blob(s, size):
    if s == 0:
        return bytes((i * 7 + i // 251) & 255 for i in range(size))
    r = random.Random(s)
    k = s % 4
    if k == 0:      # bytes that need escaping in yEnc or stuffing in NNTP are frequent
        t = bytes(r.choice((0xd6, 0xe0, 0xe3, 0x13, 0x04, 0x14, 0xd7, 0xdf, 0x00, 0x61)) for _ in range(997))
        return (t * (size // 997 + 1))[:size]
    if k == 1:
        t = bytes(r.choice((r.randrange(256), 0x04, 0x13, 0xd6)) for _ in range(1999))
        return (t * (size // 1999 + 1))[:size]
    return r.randbytes(size)


def candidates(rec, spans):
    """Simpler variants of a choice list, most drastic first."""
    n = len(rec)
    seen = set()
    def out(c):
        c = list(c)
        while c and c[-1] == 0: c.pop()
        t = tuple(c)
        if t in seen or t == tuple(rec): return None
        seen.add(t); return c
    for a, b in sorted(set(spans), key=lambda s: s[0] - s[1]):
        c = out(rec[:a] + rec[b:])
        if c is not None: yield c
    k = n // 2
    while k >= 1:
        for a in range(0, n, k):
            c = out(rec[:a] + rec[a + k:])
            if c is not None: yield c
        for a in range(0, n, k):
            if any(rec[a:a + k]):
                c = out(rec[:a] + [0] * len(rec[a:a + k]) + rec[a + k:])
                if c is not None: yield c
        k //= 2
    for i in range(n):
        v = rec[i]
        for w in sorted({0, v // 2, v - 1}):
            if 0 <= w < v:
                c = out(rec[:i] + [w] + rec[i + 1:])
                if c is not None: yield c


def case_seed(seed, name, i):
    return zlib.crc32(("%s/%s/%s" % (seed, name, i)).encode()) | (i << 32)
