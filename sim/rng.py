"""The one source of randomness of the simulator: a small counter based generator (splitmix64)."""
M = (1 << 64) - 1


def mix(z):
    z = (z + 0x9E3779B97F4A7C15) & M
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M
    return z ^ (z >> 31)


def derive(*parts):
    h = 0x243F6A8885A308D3
    for p in parts:
        if isinstance(p, str):
            for c in p.encode():
                h = mix(h ^ c)
        else:
            h = mix(h ^ (int(p) & M))
    return h


class Rng:
    def __init__(self, *seed):
        self.s = derive(*seed)

    def u64(self):
        self.s = (self.s + 0x9E3779B97F4A7C15) & M
        return mix(self.s)

    def below(self, n):
        return self.u64() % n

    def int(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def rand(self):
        return (self.u64() >> 11) / float(1 << 53)

    def chance(self, p):
        return self.rand() < p

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        pairs = [(v, w) for v, w in pairs if w > 0]
        t = self.rand() * sum(w for _, w in pairs)
        for v, w in pairs:
            t -= w
            if t < 0:
                return v
        return pairs[-1][0]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = self.below(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def seed(self):
        return self.u64() >> 16
