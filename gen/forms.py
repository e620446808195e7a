"""Scripts for modular forms, modular and division polynomials, and point counting."""
from common import *
from curve import curves, all_curves, disc


def C23(g, big):
    gs = []
    ab = [(0, 1), (1, 0), (1, 1), (-1, 0), (0, -2), (-3, 5), (2, -7), (0, 0), (g.small(30), g.small(30)), (g.small(9), g.small(9)),
          (g.z(), g.z()), (10**20, -1), (-(2**64), 3), (g.small(2), g.z()), (g.z(), g.small(2))]
    if big > 1:
        ab += [(a, b) for a in range(-2, 3) for b in range(-2, 3)] + [(g.z(), g.z()) for _ in range(12)] + [(2**255, -(2**256) + 1)]
    for i, (a, b) in enumerate(ab):
        if big > 1:
            N = 26 if i < 3 else 20 if i < 14 else 16
        else:
            N = 20 if i == 2 else 16 if i in (0, 5, 8) else 13 if i < 10 else 10
        ev = []
        for n in (g.shuffle(range(0, N + 1)) if i % 3 else range(N, -1, -1) if i % 2 else range(0, N + 1)):
            for o in g.shuffle(["psi", "phi", "omega"]):
                if n or o == "psi":
                    ev.append(op(o, ca=Z(a), cb=Z(b), n=n))
        gs.append(ev)
    # larger n, where a or b vanish (and so most coefficients) or not
    big_n = [21, 22, 23, 24, 25, 26, 27, 28, 30, 31, 32, 33, 35, 36, 39, 40]
    for a, b in [(0, 1), (1, 0), (0, g.nz()), (g.nz(), 0)]:
        for n in g.shuffle(big_n)[:4] if big == 1 else big_n + [45, 48, 51, 64]:
            gs.append([op(g.pick(["psi", "phi", "omega"]) if big == 1 else o, ca=Z(a), cb=Z(b), n=n) for o in (("psi",) if big == 1 else ("psi", "phi", "omega"))])
    for n in (g.pick([21, 22, 23]),) if big == 1 else big_n[:10]:
        gs.append([op(o, ca=Z(g.pick([1, -1, 2])), cb=Z(g.pick([1, -1, 3])), n=n) for o in (["psi", g.pick(["phi", "omega"])] if big == 1 else ["psi", "phi", "omega"])])
    # several curves in one execution, the same n: coefficients that agree in some of their digits
    for a, b in [(g.small(9), g.small(9)), (10**20, 1), (g.z(), g.z()), (2**63, -(2**63))]:
        cs = [(a, b), (b, a), (-a, b), (a, -b), (a + 2**64, b), (a, b - 2**64), (a + 2**32, b), (a, b + 2**31), (10 * a, b), (a, b + 10**20), (a, b), (a + 1, b), (a, b + 1)]
        ev = []
        for n in (3, 4, 5, 6, 7) if big == 1 else range(2, 12):
            for c in [cs[0]] + g.shuffle(cs[1:])[:5 if big == 1 else 12]:
                ev += [op(o, ca=Z(c[0]), cb=Z(c[1]), n=n) for o in g.shuffle(["psi", "phi", "omega"])[:3 if n < 6 else 1]]
        gs.append(ev)
    # there are no such polynomials
    gs.append([op(o, ca=Z(g.small(9)), cb=Z(g.small(9)), n=n) for o, k in (("psi", -1), ("phi", 0), ("omega", 0)) for n in (k, k - 1, k - 2, k - 3, k - 4, -g.i(9, 99), -2**31)])
    return {"div": gs}


def C24(g, big):
    ev = [op("schoof", ca=Z(a), cb=Z(b), n=p) for p in (5, 7, 11) for a, b, _ in all_curves(p)]
    for p in (5, 7, 11):                                      # multiples of the field's size added to either coefficient
        for a, b, _ in g.shuffle(all_curves(p))[:25] + [(a, 0, p) for a in range(1, p)] + [(0, b, p) for b in range(1, p)]:
            ev.append(op("schoof", ca=Z(a + p * g.pick([0, 1, -1, 2, -7, 2**40])), cb=Z(b + p * g.pick([0, 1, -1, 2, -5, 10**20])), n=p))
    for p in (13, 17, 19):
        for a in range(1, p):                                 # y^2 = x^3 + a x: every class of a
            if big > 1 or p == 13 or g.chance(0.5):
                ev.append(op("schoof", ca=Z(a + p * g.pick([0, 0, 1, -1])), cb=Z(p * g.pick([1, -1, 2, 10**20])), n=p))
        for b in g.shuffle(range(1, p))[:6 if big == 1 else p]:
            ev.append(op("schoof", ca=Z(p * g.pick([1, -1, 2, 2**65])), cb=Z(b + p * g.pick([0, 0, 1, -1])), n=p))
    for p, n in [(13, 60), (17, 36), (19, 28), (23, 8), (29, 2), (31, 3), (37, 3), (41, 2), (47, 2)] if big == 1 else \
            [(13, 156), (17, 300), (19, 342), (23, 120), (29, 60), (31, 60), (37, 30), (41, 12), (43, 12), (47, 8), (53, 4), (59, 4), (61, 4)]:
        cs = g.shuffle(all_curves(p))[:n]
        if n > 9:                                             # a = 0 and b = 0 have extra symmetry
            for u in g.shuffle(range(1, p))[:4]:
                cs += [(0, u, p), (u, 0, p)]
        for a, b, _ in cs:
            if g.chance(0.3):
                a, b = a + p * g.pick([-1, 1, -3, 10**20]), b + p * g.pick([-1, 1, 0, -(2**70)])
            ev.append(op("schoof", ca=Z(a), cb=Z(b), n=p))
    return {"count": chunks(g.shuffle(ev), 8)}


def C25(g, big):
    ev = []
    for n in list(range(0, 181 if big == 1 else 301)) + [199, 200, 201, 223, 240, 255, 256, 257, 258, 300, 320, 366, 399, 400, 401] + [g.i(181, 401) for _ in range(10)] + \
            ([500, 511, 512, 513, 599, 600] + [g.i(401, 600) for _ in range(20)] if big > 1 else []):
        ev += [op("e4", n=n), op("delta", n=n)]
    for n in list(range(0, 47)) + ([48, 49, 50, 52, 56, 60, 64, 65, 72, 80, 81, 90, 100] if big == 1 else list(range(47, 122)) + [125, 128, 144, 150]):
        ev += [op("deltainv", n=n), op("j1", n=n)]
        if n >= 1:
            ev.append(op("jq", n=n - 1))
    for n in range(1, 257):                                   # divisor sums: all small arguments, then perfect powers, primes, highly composite
        for k in {0, 1, 2, 3, 5, g.i(4, 40)} if n < 65 else {3, g.i(0, 40)}:
            ev.append(op("sigma", n=n, k=k))
    for n in [360, 720, 840, 1024, 997, 961, 2187, 2310, 2520, 3125, 3721, 4096, 4999, 5040, 7919, 9973, 10007, 15120, 16384, 16807, 27720, 30030, 32768, 46656, 65521, 65536, 99991, 100000]:
        for k in (0, 1, 2, 3, 5, g.i(6, 60)):
            ev.append(op("sigma", n=n, k=k))
    for _ in range(60 * big):
        ev.append(op("sigma", n=g.i(257, 9999), k=g.pick([0, 1, 2, 3, 3, 5, 7, 9, 11, 13, g.i(0, 40)])))
    for a, b in g.shuffle([(p, q) for p in SMALL_PRIMES for q in SMALL_PRIMES])[:60]:
        ev.append(op("sigma", n=a * b, k=g.i(0, 12)))
    for k in [46, 47, 128, 181, 182, 255, 256, 257, 300, 316, 317, 362, 363, 500] + [g.i(40, 600) for _ in range(4 * big)]:       # near squares
        ev += [op("sigma", n=n, k=g.i(0, 9)) for n in (k * k - 1, k * k, k * k + 1, k * (k + 1))]
    ev += [op("sigma", n=n, k=g.i(0, 3)) for n in [g.i(2**k, 2**(k + 1)) for k in range(13, 27)] + [k * k + d for k in (1023, 1024, 4096, 5000, 6000) for d in (-1, 0, 1)]]
    ev += [op("sigma", n=g.pick([1, 2, 12, g.i(1, 9999)]), k=k) for k in (-1, -2, -31, -2**31)] + [op("sigma", n=n, k=g.i(-1, 5)) for n in (0, -1, -2, -12, -2**31, -g.i(1, 9999))]
    ev += [op("sigma", n=n, k=k) for n, k in [(2**31 - 1, 1), (2**31 - 2, 0), (46340**2, 1), (46340 * 46341, 0), (2**30, 2), (2**31 - 1, 0), (46341 * 46337, 1)][:3 if big == 1 else 7] + [(46340 * 46341, 1), (46341 * g.pick([46335, 46336, 46337, 46338, 46339]), 0)]]
    ev += [op("sigma", n=n, k=g.i(0, 3)) for n in [2**k + d for k in (10, 12, 14, 15, 16, 17) for d in (-1, 0, 1)] + ([2**20, 2**20 - 1, 2**22 + 1, 1500625, 4194304] if big > 1 else [2**18, 2**18 - 1])]
    return {"forms": chunks(g.shuffle(ev), 24)}


def C26(g, big):
    ev = [op("modpoly", n=7), op("smlist", n=7), op("smpolyq", n=7)]          # about a minute each
    for l in (5, 3, 2):
        ev += [op("modpoly", n=l), op("smpolyq", n=l), op("smlist", n=l)]
    ev += [op("smpoly", n=n) for n in ((2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31) if big == 1 else [p for p in SMALL_PRIMES if p < 80])]
    out = [[e] for e in ev]
    bad = [n for n in range(-2, 122) if n < 2 or any(n % d == 0 for d in range(2, n))]
    out.append([op("smpoly", n=n) for n in bad + [-2**31, 169, 221, 341]] + [op(o, n=n) for o in ("modpoly", "smpolyq", "smlist") for n in (0, 1, 4, 6, 9, 15)])
    out.append([op("smpoly", n=561)])
    out.append([op("smpoly", n=2047)])
    return {"forms": out}


def C29(g, big):
    ev = []

    def sea(a, b, p, l):
        if l != p:
            ev.append(op("sea", ca=Z(a), cb=Z(b), m=Z(p), n=l))
    for p in (5, 7, 11, 13):
        cs = all_curves(p)
        for a, b, _ in cs if big > 1 or p < 11 else g.shuffle(cs)[:60]:
            for l in (2, 3):
                sea(a, b, p, l)
    for a, b, p in curves(g, 220 * big, SMALL_PRIMES[6:32], False, 0.3):
        for l in (2, 3):
            sea(a, b, p, l)
    for p in SMALL_PRIMES[2:32]:                              # j = 0 and j = 1728: repeated roots
        for l in (2, 3):
            sea(0, g.i(1, p - 1), p, l)
            sea(g.i(1, p - 1), 0, p, l)
    for p in SMALL_PRIMES[4:32]:                              # each j once in a while: y^2 = x^3 - 3cx - 2c, c = j / (j - 1728)
        for j in g.shuffle(range(2, p))[:6]:
            if (j - 1728) % p and j % p:
                c = j * pow(j - 1728, -1, p) % p
                sea(-3 * c % p, -2 * c % p, p, g.pick([2, 3]))
    cs5 = curves(g, (52 if big == 1 else 400), [7, 11, 13, 17, 31, 41, 61, 71, 101, 127, 131], False, 0.2)
    for a, b, p in cs5:
        sea(a, b, p, 5)
    for p in (11, 31, 131, 61):
        sea(0, g.i(1, p - 1), p, 5)
        sea(g.i(1, p - 1), 0, p, 5)
    wide = [137, 151, 181, 211, 241, 251, 257, 263, 307, 401, 499, 509, 521, 613, 769, 997, 1009, 1021, 1031]
    for a, b, p in curves(g, 30 if big == 1 else 150, wide, False, 0.3):
        sea(a, b, p, g.pick([2, 3]))
    for p in g.shuffle(wide)[:10 if big == 1 else 19]:
        sea(0, g.i(1, p - 1), p, g.pick([2, 3]))
        sea(g.i(1, p - 1), 0, p, g.pick([2, 3]))
    for a, b, p in curves(g, 3 if big == 1 else 40, wide, False, 0):
        sea(a, b, p, 5)
    for p in [2039, 2053, 4093, 4099, 8191, 8209, 16381, 16411, 32749, 32771] + ([46337, 46349, 65521, 65537, 131071, 131101] if big > 1 else [46337, 46349, 65521, 65537]):
        a, b, _ = g.pick(curves(g, 4, [p], False, 0))
        sea(a, b, p, g.pick([2, 3]))
    slow = []
    for a, b, p in curves(g, 2 if big == 1 else 40, [11, 13, 29, 43, 71, 113], False, 0):
        slow.append([op("sea", ca=Z(a), cb=Z(b), m=Z(p), n=7)])
    return {"count": slow + chunks(g.shuffle(ev), 6)}
