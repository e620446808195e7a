"""Scripts for the integer services (kind "num": checked by TraceNum)."""
import math
from common import *


def C14(g, big):
    ev = []
    ps = [2, 3, 5, 7, 11, 13, 101, 65537, 2**31 - 1, 4294967311, 2**61 - 1, 2**127 - 1, 2**255 - 19, 2**256 - 2**32 - 977, SECP_N]
    for p in (2, 3, 5, 7, 11, 13):                            # every residue, several representatives
        for v in range(-2 * p, 2 * p + 1):
            if v % p:
                ev.append(op("zinv", x=Z(v), m=Z(p)))
    for p in SMALL_PRIMES[6:] + [251, 257, 509, 521, 997]:
        for v in range(1, p) if p < 60 or big > 8 else g.shuffle(range(1, p))[:25]:
            ev.append(op("zinv", x=Z(v), m=Z(p)))
        ev += [op("zinv", x=Z(v), m=Z(p)) for v in (p + 1, 2 * p - 1, -1, -p - 1, 1 - p, p * p + 1, 3 - p * 10**20)]
    # primes around the machine words
    ps += [32749, 32771, 65521, 2147483629, 2147483659, 4294967291, 9223372036854775783, 9223372036854775837, 18446744073709551557,
           18446744073709551629, 2**128 - 159, 2**521 - 1]
    for bits in range(3, 66) if big < 9 else list(range(3, 140)) + [191, 192, 193, 255, 256, 257, 384, 512]:      # primes of every length
        p = g.prime_of(bits)
        for v in [g.r.randrange(1, p) for _ in range(5)] + [p - 1, p + 1, (p + 1) // 2, (p - 1) // 2, p - g.i(1, min(99, p - 1)), 1 << (bits - 1), (1 << bits) - 1, (1 << bits) + 1]:
            if v % p:
                ev.append(op("zinv", x=Z(g.pick([v, v, v - p, -v])), m=Z(p)))
                ev.append(op("zpowmod", x=Z(v), n=Z(g.pick([p - 1, p, p - 2, g.r.randrange(p)])), m=Z(p)))
    near = []                                                 # arguments that agree in a word, one after the other
    for _ in range(10 * big):
        p, q = g.prime_of(g.i(70, 140)), g.prime_of(g.i(66, 130))
        v, n = g.r.getrandbits(g.pick([20, 40, 64, 65])) + 1, g.r.getrandbits(g.pick([20, 40, 64, 65])) + 1
        e = []
        for k in g.shuffle([8, 16, 31, 32, 63, 64])[:3] + [64]:
            for w in (v, v + 2**k, v - 2**k, -v, v + 3 * 2**(k + 1), v % 2**k, v + p, v + q):
                if w % p and w % q:
                    e += [op("zinv", x=Z(w), m=Z(p)), op("zinv", x=Z(w), m=Z(q)), op("zpowmod", x=Z(w), n=Z(n), m=Z(p))]
            for m in (n, n + 2**k, n + 2**(k + 1)):
                e += [op("zpowmod", x=Z(v), n=Z(m), m=Z(p)), op("zpowmod", x=Z(v), n=Z(m), m=Z(p + 2**k)), op("zpowmod", x=Z(v), n=Z(m), m=Z(p)), op("zpowmod", x=Z(v), n=Z(m), m=Z(2**k))]
        near += [e[i:i + 60] for i in range(0, len(e), 60)]
    for p in ps:
        for v in [1, -1, p - 1, p + 1, 2 if p != 2 else 3, -p - 1, (p + 1) // 2] + [g.nz() for _ in range(4 * big)] + [g.residue(p) for _ in range(6 * big)]:
            if v % p:
                ev.append(op("zinv", x=Z(v), m=Z(p)))
    for m in list(range(1, 21)) + [31, 32, 33, 64, 255, 256, 257]:        # exhaustive corner
        for b in sorted({-m - 1, -m, -3, -2, -1, 0, 1, 2, 3, 4, 6, 10, m // 2, m - 2, m - 1, m, m + 1, 2 * m, 2 * m + 1}):
            for n in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17):
                ev.append(op("zpowmod", x=Z(b), n=Z(n), m=Z(m)))
    W = [2**k + d for k in (8, 16, 31, 32, 53, 63, 64, 127, 128, 256) for d in (-1, 0, 1)]
    for m in W:                                               # word boundaries in every argument
        for _ in range(6):
            ev.append(op("zpowmod", x=Z(g.pick([1, -1]) * (g.pick(W) + g.i(-1, 1))), n=Z(g.pick(W + [0, 1, 2, 3])), m=Z(m)))
    for k in range(1, 90):                                    # exponents of every length: all ones, a single one, alternating
        for n in (2**k - 1, 2**k, 2**k + 1, int("10" * k, 2) if k < 60 else 3 * 2**k):
            ev.append(op("zpowmod", x=Z(g.z()), n=Z(n), m=Z(g.pick(ps) if g.chance(0.5) else g.modulus())))
    for _ in range(220 * big):
        m = g.pick(ps) if g.chance(0.5) else g.modulus()
        n = g.pick([g.i(0, 70), g.i(0, 1000), g.r.getrandbits(g.pick([31, 32, 33, 63, 64, 65, 128, 256])), m - 1, m, m - 2 if m > 1 else 0,
                    2**g.i(0, 130), 2**g.i(1, 130) - 1])
        ev.append(op("zpowmod", x=Z(g.pick([g.z(), g.residue(m)])), n=Z(n), m=Z(m)))
    return {"num": chunks(g.shuffle(ev), 60) + near}


def fib(n):
    a, b = 0, 1
    for _ in range(n):
        a, b = b, a + b
    return a


def C15(g, big):
    ev = []
    for a in range(-24, 25):
        for b in range(-24, 25):
            ev.append(op("egcd", x=Z(a), y=Z(b)))
    W = [0, 1, 2, 3] + [2**k + d for k in (7, 8, 15, 16, 31, 32, 62, 63, 64, 127, 128) for d in (-1, 0, 1)]
    for a in W:
        for b in W if big > 8 else g.shuffle(W)[:14]:
            ev.append(op("egcd", x=Z(g.pick([1, -1]) * a), y=Z(g.pick([1, -1]) * b)))
    for _ in range(260 * big):
        k = g.i(0, 6)
        a, b = g.z(), g.z()
        if k == 0:
            b = g.pick([a, -a, 0, 1, -1])
        elif k == 1:
            b = a * g.z()
        elif k == 2:
            c = g.nz()
            a, b = a * c, b * c
        elif k == 3:
            n = g.i(2, 400)
            a, b = g.pick([1, -1]) * fib(n), g.pick([1, -1]) * fib(n + 1)
        elif k == 4:
            a, b = g.r.getrandbits(g.pick([300, 600, 1200])), g.r.getrandbits(g.pick([64, 300, 1000]))
        elif k == 5:
            a = a * b + g.pick([-1, 1, 2])
        if g.chance(0.5):
            a, b = b, a
        ev.append(op("egcd", x=Z(a), y=Z(b)))
    return {"num": chunks(g.shuffle(ev), 60)}


def coprime_moduli(g, n):
    ms = []
    while len(ms) < n:
        k = g.i(0, 5)
        m = g.pick([1, 2, 3, 4, 5, 7, 8, 9, 11, 13, 16, 17, 25, 49, 121]) if k <= 2 else g.pick([2**31 - 1, 65537, 2**61 - 1, 2**127 - 1, 10**9 + 7]) if k == 3 \
            else g.i(1, 2000) if k == 4 else g.r.getrandbits(80) + 1
        if all(math.gcd(m, x) == 1 for x in ms):
            ms.append(m)
    return ms


def C16(g, big):
    ev = [op("crt", x=[], v=0), op("crt", x=[[Z(1), Z(0)]], v=0), op("crt", x=[[Z(1), Z(5)], [Z(1), Z(-3)]], v=1)]
    for _ in range(250 * big):
        ms = coprime_moduli(g, g.pick([1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 11]))
        cs = [[Z(m), Z(g.pick([g.r.randrange(m), g.residue(m), g.residue(m), 0, m - 1, -1]))] for m in ms]
        ev.append(op("crt", x=cs, v=0))
        ev.append(op("crt", x=g.shuffle(cs), v=g.i(0, 1)))
        ev.append(op("crt", x=cs, v=1))
    # one residue zero, all zero, all -1, moduli in both orders, moduli 1 anywhere
    for _ in range(40 * big):
        ms = coprime_moduli(g, g.pick([2, 3, 4, 7]))
        r = g.pick([0, 1, -1, g.z()])
        for cs in (ms, ms[::-1], sorted(ms), sorted(ms)[::-1], [1] + ms, ms + [1]):
            ev.append(op("crt", x=[[Z(m), Z(r)] for m in cs], v=g.i(0, 1)))
    for n in (12, 15, 20, 25, 32):                            # many moduli
        cs = [[Z(p), Z(g.residue(p))] for p in g.shuffle(SMALL_PRIMES)[:n]]
        ev += [op("crt", x=cs, v=0), op("crt", x=cs[::-1], v=1)]
    for a in range(1, 9):                                     # all residues of small pairs
        for b in range(1, 9):
            if math.gcd(a, b) == 1:
                for x in range(-1, a + 1):
                    for y in range(-1, b + 1):
                        ev.append(op("crt", x=[[Z(a), Z(x)], [Z(b), Z(y)]], v=0))
    # a combined congruence is used like a given one
    return {"num": chunks(g.shuffle(ev), 60)}


def system(g, n, rows, b, sol):
    return [[g.i(-b, b) for _ in range(n)] for _ in range(rows)]


def rank_ok(m, n, p=9973):
    a = [[x % p for x in r[:n]] for r in m]
    rk = 0
    for c in range(n):
        q = next((i for i in range(rk, len(a)) if a[i][c]), None)
        if q is None:
            return False
        a[rk], a[q] = a[q], a[rk]
        inv = pow(a[rk][c], -1, p)
        for i in range(len(a)):
            if i != rk and a[i][c]:
                f = a[i][c] * inv % p
                a[i] = [(x - f * y) % p for x, y in zip(a[i], a[rk])]
        rk += 1
    return True


def C27(g, big):
    ev = []

    def add(m, s):
        if len(m) >= len(s) and rank_ok(m, len(s)):
            full = [r + [sum(c * x for c, x in zip(r, s))] for r in m]
            ev.append(op("solve", x=[[Z(c) for c in r] for r in full], s=[Z(x) for x in s]))
    for c in (1, -1, 2, -3, 7):                               # one unknown
        for x in (0, 1, -4):
            add([[c]], [x])
            add([[0], [c]], [x])
            add([[c], [2 * c], [0]], [x])
    for _ in range(300 * big):
        n = g.pick([1, 2, 2, 3, 3, 4, 5, 6])
        b = g.pick([1, 1, 2, 3, 9])
        rows = n + g.pick([0, 0, 1, 2, 4])
        m = [[g.i(-b, b) for _ in range(n)] for _ in range(rows)]
        k = g.i(0, 5)
        if k == 0 and n > 1:                                  # triangular in a bad order
            m = [[(g.pick([1, -1, 2, -3]) if j == n - 1 - i else g.i(-b, b) if j > n - 1 - i else 0) for j in range(n)] for i in range(n)]
        elif k == 1:                                          # permuted diagonal
            perm = g.shuffle(range(n))
            m = [[g.pick([1, -1, 3, -5]) if j == perm[i] else 0 for j in range(n)] for i in range(n)]
        elif k == 2:                                          # redundant rows on top
            m = [list(r) for r in m]
            m = g.shuffle(m + [[2 * x for x in m[0]], [x - y for x, y in zip(m[-1], m[0])], [0] * n])
        elif k == 3:
            m = [[x * g.pick([1, 10**6, 2**40]) for x in r] for r in m]
        s = [g.pick([0, 1, -1, g.small(20), g.z()]) for _ in range(n)]
        add(m, s)
    for n in (1, 2, 3, 4, 6):                                 # far more equations than unknowns; what is needed comes late
        for _ in range(6 * big):
            rows = n * g.pick([2, 3, 4, 6]) + g.i(0, 3)
            core = [[g.i(-3, 3) for _ in range(n)] for _ in range(n)]
            k = g.i(0, n)
            span = core[:k] or [[0] * n]
            fill = [[sum(c * x for c, x in zip(cs, col)) for col in zip(*span)] for cs in ([g.i(-2, 2) for _ in span] for _ in range(rows))]
            pos = sorted(g.i(0, len(fill)) for _ in range(n - k))
            m = core[:k] + fill
            for q, r in zip(pos, core[k:]):
                m.insert(min(len(m), q + k + g.i(0, 2)), r)
            m = g.pick([m, m, m[::-1], fill + core])
            add(m, [g.pick([0, 1, -1, g.small(20)]) for _ in range(n)])
    for n in (2, 3, 4, 5):                                    # columns that are zero until the last rows; zero pivots at each stage
        for _ in range(5 * big):
            m = [[(g.pick([0, 0, 1, -1, 2]) if j < n - 1 - (i % n) else g.i(-2, 2)) for j in range(n)] for i in range(n + g.i(0, n))]
            m += [[1 if j == i else g.pick([0, 0, 1]) if j > i else 0 for j in range(n)] for i in g.shuffle(range(n))]
            add(m, [g.small(9) for _ in range(n)])
    for _ in range(20 * big):                                 # many leading rows proportional / equal / negated; content to cancel
        n = g.i(2, 5)
        base = [g.i(-4, 4) for _ in range(n)]
        m = [[c * x for x in base] for c in (1, -1, 2, 6, -4)[:g.i(1, 5)]] + [[g.pick([1, 6, -10, 15]) * g.i(-4, 4) for _ in range(n)] for _ in range(n + 1)]
        add(m, [g.pick([0, g.small(6)]) for _ in range(n)])
    for n in (8, 10, 14):
        for _ in range(2 * big):
            m = [[g.i(-3, 3) for _ in range(n)] for _ in range(n + 3)]
            add(m, [g.small(50) for _ in range(n)])
    for a in (-2, -1, 0, 1, 2, 3):                            # all small 2x2 systems
        for b in (-2, -1, 0, 1, 3):
            for c in (-2, -1, 0, 1, 2):
                for d in (-1, 0, 1, 2):
                    add([[a, b], [c, d]], [g.small(5), g.small(5)])
    return {"num": chunks(g.shuffle(ev), 40)}


def C28(g, big):
    ev = []
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31):
        n = (p + 1) * (p + 2) // 2
        ev.append(op("svcount", n=p))
        ix = range(n) if p <= 31 or big > 8 else g.shuffle(range(n))[:60] + [0, 1, n - 1, n - p - 1, n - p - 2]
        for i in ix:
            ev.append(op("svfrom", n=p, x=Z(i)))
        for i in [n, n + 1, n + p, 2 * n, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**32 + n - 1, 2**33, 2**63, 2**64 - 1]:
            ev.append(op("svfrom", n=p, x=Z(i)))
        pr = [(i, j) for i in range(p + 1) for j in range(i, p + 1)]
        for i, j in (pr if p <= 31 or big > 8 else g.shuffle(pr)[:60]):
            ev.append(op("svidx", n=p, x=[i, j]))
        for i, j in [(i, j) for i in (-3, -2, -1, 0, 1, 2, p // 2, p - 1, p, p + 1, p + 2) for j in (-3, -2, -1, 0, 1, 2, p // 2, p - 1, p, p + 1, p + 2)] + \
                [(v, v) for v in (-2**31 + 1, 2**31 - 1, -65536, 256, -256, 65536, 2**16 + 1)] + [(1, 0), (p, 0), (p, p - 1), (0, p + 1), (p + 1, p + 1), (p, p + 1), (2, 1), (1, 2**31 - 1), (-3, 0), (0, -2), (-2, -2 - p),
                     (g.i(1, p), 0), (p + 1, 0), (65536, 65536), (-1, 2), (p - 1, 2 * p)]:
            if i <= j <= p and i >= 0:
                continue
            ev.append(op("svidx", n=p, x=[i, j, 0]))
        ev += [op("svidx", n=p, x=[g.i(-3, 5), g.i(-3, 5), 1]), op("svidx", n=p, x=[0, 0, 1])]
    for n in (37, 41, 43, 53, 61, 67, 97, 101, 127, 131, 257, 509):
        ev += [op("svcount", n=n)] + [op("svidx", n=n, x=list(sorted((g.i(0, n), g.i(0, n))))) for _ in range(12)]
        c = (n + 1) * (n + 2) // 2
        if True:
            ev += [op("svfrom", n=n, x=Z(i)) for i in (0, 1, n - 1, n, n + 1, c - 1, c - 2, c - n - 1, c - n - 2)]
            ev += [op("svfrom", n=n, x=Z(g.i(0, c - 1))) for _ in range(6)]
        ev += [op("svfrom", n=n, x=Z(c + g.i(0, 5)))]
    for n in (-7, -2, -1, 0, 1, 4, 6, 8, 9, 10, 15, 21, 25, 27, 35, 49, 77, 91, 121, 143, 169, 221):    # not primes
        ev += [op("svcount", n=n), op("svfrom", n=n, x=Z(0)), op("svidx", n=n, x=[0, 0])]
    ps = [p for p in range(2, 400) if all(p % d for d in range(2, p))]
    comp = [n for n in range(4, 300) if n not in ps] + [p * p for p in ps if p < 400] + [p * q for p, q in zip(ps, ps[1:])] + \
           [p * g.pick(ps) for p in ps] + [561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 29341, 341, 2047, 1373653, 25326001,
            46337**2, 46339 * 46327, 2**31 - 3, 2**30, 2**16, 65535, 2**31 - 2, 2**31 - 5] + [p**3 for p in ps if p < 1000]
    ev += [op(g.pick(["svcount", "svcount", "svfrom", "svidx"]), n=n, x=Z(0)) for n in comp if any(n % d == 0 for d in range(2, 46342) if d < n)]
    ev = [dict(e, x=[0, 0]) if e["op"] == "svidx" and not e["x"][1:] else e for e in ev]
    for n in (1009, 1361, 2003):                              # larger primes
        c = (n + 1) * (n + 2) // 2
        ev += [op("svcount", n=n)] + [op("svfrom", n=n, x=Z(i)) for i in (0, n - 1, n, c - n - 2, c - n - 1, c - 1, c, g.i(0, c))]
        ev += [op("svidx", n=n, x=sorted((g.i(0, n), g.i(0, n)))) for _ in range(5)] + [op("svidx", n=n, x=[n, n]), op("svidx", n=n, x=[1, n + 1, 0])]
    ev = chunks(g.shuffle(ev), 80)
    for n in [32749, 46337, 46349, 65519, 65521, 65537, 65539, 92681, 92683, 92693, 100003] + [g.pick([11003, 16381, 20011, 27011, 40009, 55001, 70001, 81001]) for _ in range(3)]:
        ev.append([op("svcountz", n=n)])
    for n in (65537, g.pick([46337, 46349, 32749])):          # indices around 2^31, 2^32 / 2, 2^29
        c = (n + 1) * (n + 2) // 2
        ev += [[op("svfromz", n=n, x=Z(i))] for i in (c - 1, c - n - 2, g.pick([c - n - 1, c - 2, n, g.i(0, c - 1)]), c - n - 1 + min(n, 2 ** 15))]
        ev += [[op("svidxz", n=n, x=v)] for v in ([n, n], [n - 1, n], sorted((g.i(0, n), g.i(0, n))), [0, n])]
    return {"num": ev}
