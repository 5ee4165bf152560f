"""The one source of choices: a counter-based generator derived from integers and labels."""
import hashlib

M = (1 << 64) - 1


def _mix(z):
    z = (z + 0x9E3779B97F4A7C15) & M
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M
    return z ^ (z >> 31)


class Rng:
    big = True          # whether large arrays may be drawn now and then
    fixed = None        # the size of all arrays that may have any

    def __init__(self, *labels):
        h = hashlib.sha256(repr(labels).encode()).digest()
        self.k = int.from_bytes(h[:8], "big")
        self.n = 0

    def bits(self):
        self.n += 1
        return _mix((self.k + self.n * 0xD1342543DE82EF95) & M)

    def u(self):
        return (self.bits() >> 11) / float(1 << 53)

    def int(self, a, b):
        """integer in [a, b]"""
        return a + self.bits() % (b - a + 1)

    def uniform(self, a, b):
        return a + (b - a) * self.u()

    def chance(self, p):
        return self.u() < p

    def choice(self, seq):
        return seq[self.bits() % len(seq)]

    def weighted(self, pairs):
        t = sum(w for _, w in pairs)
        x = self.u() * t
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = self.int(0, i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def sample(self, seq, k):
        return self.shuffle(seq)[:k]

    def geom(self, mean):
        """geometric with the given mean, at least 1"""
        import math
        if mean <= 1:
            return 1
        return 1 + int(math.log(1 - self.u()) / math.log(1 - 1.0 / mean))

    def loguni(self, a, b):
        import math
        return math.exp(self.uniform(math.log(a), math.log(b)))

    def seed(self):
        return self.bits() & 0x7FFFFFFF
