"""Building blocks of the script generators.  A script is a list of operations (dicts)."""
import random

BASE = 10000


def Z(v):
    """integer -> [sign, limbs...] (base 10^4, least significant first)"""
    if v == 0:
        return [0]
    s, m, l = (1 if v > 0 else -1), abs(v), []
    while m:
        m, r = divmod(m, BASE)
        l.append(r)
    return [s] + l


def unZ(l):
    v = 0
    for d in reversed(l[1:]):
        v = v * BASE + d
    return -v if l[0] < 0 else v


NV = (-1, -1)
ONE = (0, 0, 0, -1, -1)
SMALL_PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97,
                101, 103, 107, 109, 113, 127, 131]
BIG_PRIMES = [65537, 2**31 - 1, 4294967311, 2**61 - 1, 2**89 - 1, 2**127 - 1, 2**255 - 19,
              2**256 - 2**32 - 977]
SECP_N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141


class G:
    """a seeded source of values"""

    def __init__(self, seed):
        self.r = random.Random(seed)

    def i(self, lo, hi):
        return self.r.randint(lo, hi)

    def pick(self, xs):
        return self.r.choice(list(xs))

    def chance(self, p):
        return self.r.random() < p

    def shuffle(self, xs):
        xs = list(xs)
        self.r.shuffle(xs)
        return xs

    def small(self, b=9):
        return self.i(-b, b)

    def z(self, zero=True):
        """an integer of any magnitude, with a liking for word boundaries"""
        while True:
            k = self.i(0, 9)
            if k <= 4:
                v = self.i(-12, 12)
            elif k <= 6:
                v = self.i(-10**6, 10**6)
            elif k == 7:
                v = self.pick([1, -1]) * (2**self.pick([7, 8, 15, 16, 31, 32, 53, 63, 64, 127, 128, 256]) + self.i(-1, 1))
            else:
                v = self.pick([1, -1]) * self.r.getrandbits(self.pick([20, 40, 64, 100, 200]))
            if v or zero:
                return v

    def nz(self):
        return self.z(False)

    def prime(self, big=True):
        return self.pick(SMALL_PRIMES[:12]) if not big or self.chance(0.6) else self.pick(BIG_PRIMES + [101, 9973, 10007])

    def prime_of(self, bits):
        """a prime of exactly the given number of bits"""
        if bits < 4:
            return self.pick({2: [2, 3], 3: [5, 7]}[max(2, bits)])
        while True:
            n = self.r.getrandbits(bits) | (1 << (bits - 1)) | 1
            if self.chance(0.25):                             # close to a power of two
                n = ((1 << bits) - 1 - 2 * self.i(0, 40)) if self.chance(0.5) else (1 << (bits - 1)) + 1 + 2 * self.i(0, 40)
            if n.bit_length() == bits and is_prime(n):
                return n

    def modulus(self):
        k = self.i(0, 5)
        if k == 0:
            return self.i(1, 4)
        if k <= 2:
            return self.prime(False)
        if k == 3:
            return self.i(2, 10**6)
        if k == 4:
            return self.pick(BIG_PRIMES)
        return self.r.getrandbits(self.pick([31, 32, 33, 64, 128])) + 2

    def var(self):
        k = self.i(0, 9)
        if k <= 6:
            return (self.i(0, 3), self.i(0, 3))
        if k <= 8:
            return (self.i(0, 130), self.i(0, 130))
        k = self.i(2, 31)
        return (self.pick([255, 256, 65536, 10**6, 2**31 - 1, self.r.getrandbits(k)]), self.r.getrandbits(self.i(1, 31)))

    # monomials ------------------------------------------------------------------------------
    def mono(self, kind="any", e=4, u=0.3):
        """kinds: xy (exponents >= 0), x, y, q (q of any sign and unknowns), qn (q >= 0), lau (any
        sign, no unknown), any"""
        def hi(lo):
            k = self.i(0, 19)
            v = self.i(0, e) if k < 18 else self.pick([e + 1, 2 * e, 3 * e + 1])
            return -v if lo and self.chance(0.4) else v
        v = self.var() if self.chance(u) else NV
        if kind == "xy":
            return (hi(0), hi(0), 0) + NV
        if kind == "x":
            return (hi(0), 0, 0) + NV
        if kind == "y":
            return (0, hi(0), 0) + NV
        if kind == "q":
            return (0, 0, hi(1)) + v
        if kind == "qn":
            return (0, 0, hi(0)) + NV
        if kind == "lau":
            return (hi(1), hi(1), hi(1)) + NV
        if kind == "xyqu":                     # x, y >= 0, q any, unknowns
            return (hi(0), hi(0), hi(1)) + v
        if kind == "xyq":
            return (hi(0), hi(0), hi(1)) + NV
        return (hi(1), hi(1), hi(1)) + v

    def coefs(self):
        """a way to choose non-zero coefficients"""
        k = self.i(0, 9)
        if k <= 3:
            return self.nz
        if k <= 5:
            return lambda: self.pick([-2, -1, 1, 2, 3])
        if k == 6:
            return lambda: self.pick([-1, 1])
        if k == 7:
            return lambda: self.small(99) or 1
        w = 2**self.pick([7, 8, 15, 16, 31, 32, 53, 62, 63, 64, 96, 127, 128])       # sums and products around one word size
        return lambda: self.pick([-1, 1]) * (w + self.i(-2, 2)) if self.chance(0.7) else self.pick([-1, 1, -2, 2])

    def poly(self, n=None, kind="any", e=4, u=0.3, coef=None):
        """canonical list of terms, ascending"""
        if n is None:
            n = self.pick([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12]) if self.chance(0.95) else self.pick([9, 15, 16, 17, 24, 33])
        d = {}
        c = coef or self.coefs()
        for _ in range(n):
            d[self.mono(kind, e, u)] = c()
        return canon(d)

    def upoly(self, deg, p=None, var=0, lead=None):
        """dense-ish polynomial in x of exactly the given degree (None: zero)"""
        d = {}
        if deg is None:
            return []
        for k in range(deg + 1):
            if k == deg or self.chance(0.75):
                c = self.small(12) if p is None else self.residue(p)
                m = [0, 0, 0, -1, -1]
                m[var] = k
                d[tuple(m)] = c
        m = [0, 0, 0, -1, -1]
        m[var] = deg
        if lead is not None:
            d[tuple(m)] = lead
        elif d[tuple(m)] == 0 or (p and d[tuple(m)] % p == 0):
            d[tuple(m)] = 1
        return canon(d)

    def residue(self, p):
        """a representative of a residue class, mostly reduced"""
        k = self.i(0, 9)
        v = self.r.randrange(p)
        if k <= 5:
            return v
        if k <= 7:
            return v - p
        if k == 8:
            return v + p * self.i(1, 5)
        return v - p * self.i(2, 10**6)


def is_prime(n):
    if n < 2 or any(n % q == 0 for q in SMALL_PRIMES):
        return n in SMALL_PRIMES
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in SMALL_PRIMES[:14]:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


# 32-bit exponents and indices around every boundary
XE = sorted({s * v for s in (1, -1) for v in [0, 1, 2, 3, 9, 10, 11, 99, 100, 101, 999, 1000, 1001, 9999, 10000, 46340, 46341, 99999, 100000, 10**6, 10**9] +
             [2**k + d for k in (6, 7, 8, 10, 12, 14, 15, 16, 17, 20, 23, 24, 25, 30) for d in (-1, 0, 1)] + [2**31 - 2, 2**31 - 1]})


def canon(d):
    return [[list(m), Z(c)] for m, c in sorted(d.items(), key=lambda t: t[0]) if c != 0]


def pdict(l):
    return {tuple(m): unZ(c) for m, c in l}


def padd(f, g, s=1):
    d = pdict(f)
    for m, c in pdict(g).items():
        d[m] = d.get(m, 0) + s * c
    return canon(d)


def pmul(f, g):
    d = {}
    for m, c in pdict(f).items():
        for k, e in pdict(g).items():
            v = m[3:] if m[3] != -1 else k[3:]
            t = (m[0] + k[0], m[1] + k[1], m[2] + k[2]) + v
            d[t] = d.get(t, 0) + c * e
    return canon(d)


def load(d, f):
    return {"op": "pload", "d": d, "x": f}


def tload(d, m, c):
    return {"op": "tload", "d": d, "x": [list(m), Z(c)]}


def op(o, **k):
    k = {kk: vv for kk, vv in k.items()}
    return dict(op=o, **k)


def chunks(events, n):
    """independent events -> chunks of about n events"""
    return [events[i:i + n] for i in range(0, len(events), n)]


def groups(gs, n):
    """lists of dependent events -> chunks of about n events"""
    out, cur = [], []
    for g in gs:
        cur = cur + g
        if len(cur) >= n:
            out.append(cur)
            cur = []
    if cur:
        out.append(cur)
    return out
