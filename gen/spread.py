"""Scripts in which every measure of an operand (number of terms, size of coefficients, exponents, indices) is spread
evenly over all orders of magnitude.  tools/coverage.py shows what they reach."""
from common import *

I31 = 2**31 - 1


def lu(g, hi, lo=0):
    """an integer in [lo, hi], every order of magnitude equally likely"""
    while True:
        k = g.i(0, hi.bit_length())
        v = (1 << (k - 1) | g.r.getrandbits(k - 1)) if k > 1 else k
        if k > 3 and g.chance(0.2):
            v = (1 << (k - 1)) + g.i(-1, 1)
        if lo <= v <= hi:
            return v


def coef(g, bits=None):
    """a way to choose non-zero coefficients"""
    bits = bits or g.pick([1, 2, 8, 16, 31, 32, 33, 62, 63, 64, 65, 100, 128, 129, 256, 700, 1500, 3000])
    k = g.i(0, 5)
    if k == 0:
        return lambda: g.pick([1, -1])
    if k == 1:
        return lambda: g.pick([1, -1]) * ((1 << lu(g, bits)) + g.i(-1, 1)) or 1
    if k == 2:
        s = g.pick([1, -1])
        return lambda: s * ((1 << (bits - 1)) | g.r.getrandbits(bits))
    return lambda: g.pick([1, -1]) * (g.r.getrandbits(g.i(1, bits)) or 1)


def wvar(g):
    return (lu(g, I31), lu(g, I31)) if g.chance(0.7) else (lu(g, 2000), lu(g, 2000))


def spoly(g, n, vs, emax, u=0.0, bits=None):
    """about n terms in the variables vs (capital: exponents of both signs), exponents up to emax"""
    c = coef(g, bits)
    ks = [("xyq".index(v.lower()), v.isupper()) for v in vs]
    d = {}
    style = g.pick([0, 1, 1, 2])
    if style == 0 and ks:                                     # one variable without gaps
        k, neg = g.pick(ks)
        lo = g.i(-n, 0) if neg else lu(g, max(0, emax - n))
        m = [0, 0, 0]
        for i in range(n):
            m[k] = min(emax, lo + i)
            d[tuple(m) + (wvar(g) if g.chance(u) else NV)] = c()
    else:
        hi = emax if style == 1 else min(emax, g.pick([2, 3, 5, n + 2, 50]))
        for _ in range(n):
            m = [0, 0, 0]
            for k, neg in ks:
                if g.chance(0.75):
                    e = lu(g, hi) if style == 1 else g.i(0, hi)
                    m[k] = -e if neg and g.chance(0.4) else e
            d[tuple(m) + (wvar(g) if g.chance(u) else NV)] = c()
    return canon(d)


def related(g, f, n, vs, emax, bits=None):
    """a polynomial that shares monomials with f: equal, opposite or other coefficients"""
    d = pdict(spoly(g, n, vs, emax, 0, bits))
    k = g.pick([0, 0.1, 0.5, 1])
    s = g.pick([0, 1, -1])
    c = coef(g, bits)
    for m, v in pdict(f).items():
        if m[3] == -1 and g.chance(k):
            d[m] = s * v or c()
    return canon(d)


VS = ["x", "y", "q", "Q", "xy", "XY", "xyq", "XYQ", "X", "Y", "xQ", "yq"]


def maxe(f):
    return max((abs(e) for m, _ in f for e in m[:3]), default=0)


def C01(g, big):
    gs = []
    for _ in range(9 * big):
        vs, emax = g.pick(VS), g.pick([4, 30, 1000, 10**5, 10**7, 2**29])
        a = spoly(g, lu(g, 320), vs, emax, g.pick([0, 0, 0.5]))
        b = related(g, a, lu(g, 320), vs, emax)
        if g.chance(0.5):
            a, b = b, a
        ev = [load(0, a), load(1, b)]
        for o in ("padd", "psub"):
            ev += [op(o, d=2, a=0, b=1, v=g.i(0, 3)), op(o, d=3, a=1, b=0, v=g.i(0, 3))]
        o = g.pick(["paddeq", "psubeq"])
        ev += [op(o, d=2, b=1, v=g.i(0, 1)), op(o, d=3, b=0, v=g.i(0, 1)), op("pneg", d=4, a=g.i(0, 1), v=g.i(0, 1))]
        if len(a) * len(b) <= 2500:
            ev += [op("pmul", d=5, a=0, b=1, v=g.i(0, 3)), op("pcopy", d=6, a=1), op("pmuleq", d=6, b=0, v=g.i(0, 1))]
        ev.append(op("pcopy", d=7, a=g.i(0, 1)))
        gs.append(ev)
    for n, m in [(1, 300), (2, 250), (300, 2), (64, 64), (65, 65), (100, 12), (128, 20), (40, 90)]:       # products of long polynomials
        vs = g.pick(["x", "xy", "q", "XYQ"])
        gs.append([load(0, spoly(g, n, vs, 2**29, 0)), load(1, spoly(g, m, vs, 2**29, 0, 64)), op("pmul", d=2, a=0, b=1, v=g.i(0, 3))] +
                  ([op("pmuleq", d=0, b=1, v=g.i(0, 1))] if g.chance(0.5) else []))
    for _ in range(20 * big):                                 # with terms
        vs, emax = g.pick(VS), g.pick([4, 30, 1000, 10**5, 10**7, 2**29])
        u = g.pick([0, 0, 0.5])
        f = spoly(g, lu(g, 320), vs, emax, u)
        ev = [load(0, f)]
        for k in (0, 1):
            r = g.i(0, 3)
            t = g.pick(f) if f and r else [list((spoly(g, 1, vs, emax) or canon({ONE: 1}))[0][0]), Z(coef(g)())]
            c = unZ(t[1]) * g.pick([1, -1]) if r < 3 else coef(g)()
            m = tuple(t[0]) if not u or k == 0 else tuple(t[0][:3]) + NV
            ev.append(tload(k, m, c))
        free = not any(m[3] != -1 for m, _ in f)
        for o in ("ptadd", "ptsub"):
            ev += [op(o, d=1, a=0, b=0, v=g.i(0, 3)), op("t" + o[:1] + o[2:], d=2, a=0, b=0, v=g.i(0, 3))]
        ev += [op("pcopy", d=3, a=0), op("ptaddeq", d=3, b=0, v=g.i(0, 1)), op("ptaddeq", d=3, b=1, v=g.i(0, 1)), op("ttadd", d=4, a=0, b=1, v=g.i(0, 3)), op("ttsub", d=4, a=0, b=1, v=g.i(0, 3)),
               op("tneg", d=2, a=0, v=g.i(0, 1)), op("topol", d=5, a=0)]
        if free:
            ev += [op("ptmul", d=1, a=0, b=1, v=g.i(0, 3)), op("tpmul", d=2, a=1, b=0, v=g.i(0, 3)), op("ttmul", d=3, a=0, b=1, v=g.i(0, 3))]
        ev.append(op("pcopy", d=7, a=0))
        gs.append(ev)
    for _ in range(4 * big):                                  # two unknowns in one product
        us = [wvar(g) for _ in range(2)]
        f, h = spoly(g, lu(g, 12), g.pick(VS), 30), spoly(g, lu(g, 12), g.pick(VS), 30)
        ms = [tuple(g.mono("lau"))[:3] + g.pick(us) for _ in range(2)]
        f, h = canon({**pdict(f), ms[0]: coef(g)()}), canon({**pdict(h), ms[1]: coef(g)()})
        ev = [load(0, f), load(1, h), tload(0, ms[0], coef(g)()), tload(1, ms[1], coef(g)())]
        ev += [op("pmul", d=2, a=0, b=1, v=g.i(0, 3)), op("ptmul", d=2, a=0, b=1, v=g.i(0, 3)), op("tpmul", d=2, a=0, b=1, v=g.i(0, 3)), op("ttmul", d=2, a=0, b=1, v=g.i(0, 3)), op("pmul", d=2, a=1, b=1, v=3),
               op("pcopy", d=3, a=1), op("tneg", d=3, a=1), op("pmuleq", d=0, b=1, v=g.i(0, 1))]
        gs.append(ev)
    for k in range(16 * max(1, big // 5)):                    # ... with each index zero or not, equal or not
        i = [0 if k >> b & 1 else lu(g, g.pick([3, I31]), 1) for b in range(4)]
        i[2 + g.i(0, 1)] = i[g.i(0, 1)] if k >= 16 else i[2 + g.i(0, 1)]
        ms = [tuple(g.mono("lau"))[:3] + tuple(v) for v in (i[:2], i[2:])]
        gs.append([tload(0, ms[0], coef(g)()), tload(1, ms[1], coef(g)()), op("ttmul", d=2, a=0, b=1, v=g.i(0, 3)), op("ttmul", d=2, a=1, b=0, v=g.i(0, 3)),
                   load(0, canon({ms[0]: g.nz()})), load(1, canon({ms[1]: g.nz()})), op("pmul", d=2, a=0, b=1, v=g.i(0, 3)), op("ptmul", d=2, a=1, b=0, v=g.i(0, 3)), op("tpmul", d=2, a=1, b=0, v=g.i(0, 3))])
    return {"poly": groups(gs, 15)}


def C03(g, big):
    gs, num = [], []
    for _ in range(5 * big):                                  # large exponents
        n = g.pick([0, 1, 2, 2, 3, 4, 5])
        f = spoly(g, g.pick([1, 1, 2, 3, 5]) if n > 3 else lu(g, 12), g.pick(VS), I31 // (2 * max(n, 1)), 0, g.pick([2, 30, 64, 200]))
        gs.append([load(0, f), op("ppow", d=1, a=0, n=n, v=g.i(0, 2)), op("ppowmod", d=2, a=0, n=Z(n), m=Z(g.modulus()))] +
                  ([op("psquare", d=3, a=0)] if n >= 2 else []) + ([op("pcube", d=3, a=0)] if n >= 3 else []))
    for n in (10, 16, 17, 31, 40, 64, 100):                   # many terms
        f = spoly(g, n, g.pick(["x", "q", "XYQ", "xy"]), 60, 0, 40)
        gs.append([load(0, f), op("psquare", d=1, a=0), op("ppow", d=2, a=0, n=2, v=g.i(0, 2)), op("ppowmod", d=3, a=0, n=Z(2), m=Z(g.modulus()))] + ([op("pcube", d=4, a=0)] if n < 40 else []))
    for n in list(range(30, 129)) + [135, 144, 150, 165, 180, 192, 195, 210, 225, 239, 240, 241, 250, 255, 256, 257, 270, 285, 300, 360, 400, 480, 512] + [g.i(129, 512) for _ in range(big)]:      # sums to every power
        m = g.pick([(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, -1, 0), (2, 0, 3)]) + NV
        f = canon({m: g.pick([1, -1]), ONE: g.pick([1, -1])} if n > 70 or g.chance(0.5) else
                  {m: g.pick([1, -1, 2]), ONE: g.pick([1, -3]), tuple(2 * e for e in m[:3]) + NV: g.pick([1, -1])})
        gs.append([load(0, f), op("ppow", d=1, a=0, n=n, v=g.i(0, 2)), op("ppowmod", d=2, a=0, n=Z(n), m=Z(g.pick([2, 3, 7, 101, 2**61 - 1])))])
    for n in list(range(0, 6)) + [lu(g, 2000) for _ in range(4 * big)]:       # terms: exponent and power of every size
        for v in (0, 1, 2):
            m = tuple(g.pick([1, -1]) * lu(g, I31 // max(n, 1)) for _ in range(3)) + NV
            gs.append([tload(0, m, g.pick([1, -1, 2, -3, 2**32]) if n < 300 else g.pick([1, -1, 2])), op("tpow", d=1, a=0, n=n, v=v), op("tpowmod", d=2, a=0, n=n, m=Z(g.modulus()))])
    for _ in range(3 * big):                                  # refusals: powers of an unknown, negative exponents
        v = wvar(g)
        f = canon({**pdict(spoly(g, lu(g, 9), "XYQ", 30, 0.3)), (g.i(-3, 9), 1, 0) + v: g.pick([1, -1])})
        h = spoly(g, lu(g, 9), "XYQ", 30, 0)
        n = g.pick([2, 3, 4, lu(g, 9, 2)])
        k = -lu(g, I31, 1)
        gs.append([load(0, f), tload(0, (g.i(-2, 2), 0, g.i(0, 3)) + v, g.nz()), op("ppow", d=1, a=0, n=n, v=g.i(0, 2)), op("psquare", d=1, a=0), op("pcube", d=1, a=0), op("ppowz", d=1, a=0, n=Z(n), v=g.i(1, 2)),
                   op("tpow", d=1, a=0, n=n, v=g.i(0, 2)), op("tpowz", d=1, a=0, n=Z(n), v=g.i(1, 2)), op("ppowmod", d=1, a=0, n=Z(n), m=Z(g.pick([2, 3, 101]))) , op("pneg", d=3, a=0),
                   load(2, h), op("ppow", d=1, a=2, n=k, v=0), op("ppowz", d=1, a=2, n=Z(k), v=g.i(1, 2)), op("ppowmod", d=1, a=2, n=Z(k), m=Z(g.modulus())), op("pneg", d=3, a=2)])
    for b in list(range(1, 34)) + [48, 62, 63, 64, 65, 66, 96, 127, 128, 129, 200]:       # negative exponents of every size
        for n in {-2**(b - 1), -(g.r.getrandbits(b) | (1 << (b - 1))), 1 - 2**b if b > 1 else -1}:
            h = spoly(g, g.pick([1, 1, 2, 3]), g.pick(VS), 9, 0, 8)
            gs.append([load(0, h), op("ppowz", d=1, a=0, n=Z(n), v=g.i(1, 2)), op("ppowmod", d=1, a=0, n=Z(n), m=Z(g.modulus()))] + ([op("ppow", d=1, a=0, n=n, v=0)] if n >= -2**31 and n < 0 else []))
    for n in [2**31 - 2, 2**31 - 1, 2**31, 2**31 + 1, 2**32, 2**32 + 1, 2**63 - 1, 2**63, 2**64, 2**64 + 1, 2**100 + 1] + [g.r.getrandbits(g.i(33, 200)) for _ in range(4)]:      # beyond machine integers
        for b in (0, 1, -1):
            for v in (1, 2):
                num.append(op("zpowz", x=Z(b), n=Z(n), v=v))
                gs.append([load(0, canon({ONE: b})), op("ppowz", d=1, a=0, n=Z(n), v=v), tload(0, ONE, b), op("tpowz", d=1, a=0, n=Z(n), v=v), op("tpowmodz", d=2, a=0, n=Z(n), m=Z(g.modulus()))])
    return {"poly": groups(gs, 15), "num": chunks(num, 60)}


def C04(g, big):
    gs = []
    for _ in range(6 * big):
        p = g.modulus() if g.chance(0.6) else g.r.getrandbits(lu(g, 2000, 1)) + 1
        f = spoly(g, lu(g, 320), g.pick(VS), I31, g.pick([0, 0, 0.5, 1]))
        k = g.pick([0, 0.3, 1])
        f = [[m, Z(p * unZ(c) if g.chance(k) else unZ(c))] for m, c in f]
        t = g.pick(f) if f else [list(ONE), Z(-1)]
        gs.append([load(0, f), op("prem", d=1, a=0, m=Z(p), v=1)] + ([op("prem", d=2, a=0, m=Z(p), v=0)] if p < 2**31 else []) + [op("pmodeq", d=0, m=Z(p)), op("peq", a=0, b=1),
                   tload(0, tuple(t[0]), unZ(t[1])), op("tmod", d=1, a=0, m=Z(p)), op("tmodeq", d=0, m=Z(p))])
    gs.append([load(0, spoly(g, 900, "XYQ", I31, 0.1, 100)), op("prem", d=1, a=0, m=Z(101), v=0), op("pmodeq", d=0, m=Z(2**64))])
    return {"poly": groups(gs, 15)}


def C05(g, big):
    gs = []
    for _ in range(6 * big):
        vs = g.pick(VS)
        e = g.pick([5, 100, 2**30 - 1])
        f = spoly(g, lu(g, 320), vs, e, g.pick([0, 0, 0.5]))
        m = [g.pick([0, g.pick([1, -1]) * lu(g, e)]) for _ in range(3)] + [-1, -1]
        c = g.pick([1, -1, 2, -3, coef(g)()])
        if g.chance(0.4):
            f = [[t, Z(c * unZ(v))] for t, v in f]
        t = g.pick(f) if f else [list(ONE), Z(5)]
        gs.append([load(0, f), tload(0, m, c), load(1, canon({tuple(m): c})), tload(1, tuple(t[0]), unZ(t[1])), op("ptdiv", d=2, a=0, b=0, v=g.i(0, 3)), op("pdiv", d=2, a=0, b=1, v=g.i(0, 3)),
                   op("ttdiv", d=2, a=1, b=0, v=g.i(0, 3)), op("tpdiv", d=2, a=1, b=1, v=g.i(0, 3)), op("pcopy", d=3, a=0), op("pdiveq", d=3, b=1, v=g.i(0, 1)), op("pcopy", d=4, a=0), op("ptdiveq", d=4, b=0, v=g.i(0, 1))])
    for _ in range(2 * big):                                  # refusals: divisors with an unknown
        v = wvar(g)
        f = canon({**pdict(spoly(g, lu(g, 12), "XYQ", 30, 0.5)), (g.i(-3, 9), 1, 0) + v: g.nz()})
        m = g.pick([(0, 0, 0), (1, 0, 0), (0, 0, -2)]) + g.pick([v, wvar(g)])
        c = g.pick([1, -1, coef(g)()])
        t = g.pick(f)
        gs.append([load(0, f), load(1, canon({m: c})), tload(0, m, c), tload(1, tuple(t[0]), unZ(t[1])), op("pdiv", d=2, a=0, b=1, v=g.i(0, 3)), op("ptdiv", d=2, a=0, b=0, v=g.i(0, 3)), op("tpdiv", d=2, a=1, b=1, v=g.i(0, 3)),
                   op("ttdiv", d=2, a=1, b=0, v=g.i(0, 3)), op("pcopy", d=3, a=0), op("pcopy", d=4, a=0), op("pdiveq", d=4, b=1, v=g.i(0, 1)), op("ptdiveq", d=0, b=0, v=g.i(0, 1))])
    for _ in range(4 * big):                                  # refusals: divisors with many terms
        h = []
        while len(h) < 2:
            h = spoly(g, lu(g, 320, 2), g.pick(VS), g.pick([5, 100, 2**29]), g.pick([0, 0.5]), g.pick([1, 64]))
        f = g.pick([h, spoly(g, lu(g, 50), "XYQ", 50), []])
        gs.append([load(0, f), load(1, h), op("pdiv", d=2, a=0, b=1, v=g.i(0, 3)), tload(0, g.mono("lau"), g.z()), op("tpdiv", d=2, a=0, b=1, v=g.i(0, 3)), op("pcopy", d=2, a=0), op("pdiveq", d=2, b=1, v=g.i(0, 1))])
    return {"poly": groups(gs, 15)}


def fp(g):
    return g.pick([2, 3, 5, 7, 13, 101]) if g.chance(0.5) else g.prime_of(g.i(2, 130))


def dense(g, n, p, gap=0.0):
    return canon({(i, 0, 0) + NV: g.residue(p) if i < n else g.i(1, p - 1) for i in range(n + 1) if i == n or not g.chance(gap)})


def C06(g, big):
    gs = []
    for _ in range(12 * big):
        p = fp(g)
        n = lu(g, 120)
        f = dense(g, n + lu(g, 60), p, g.pick([0, 0, 0.5, 0.9])) if g.chance(0.6) else \
            canon({(g.i(0, n + 6), g.pick([0, lu(g, I31)]), g.pick([0, g.pick([1, -1]) * lu(g, I31)])) + (wvar(g) if g.chance(0.3) else NV): g.residue(p) or 1 for _ in range(lu(g, 150))})
        h = dense(g, n, p, g.pick([0, 0, 0.5, 0.9]))
        gs.append([load(0, f), load(1, h), op("pmodpoly", d=2, a=0, b=1, m=Z(p))])
    for _ in range(2 * big):                                  # big coefficients
        p = fp(g)
        f, h = spoly(g, lu(g, 12), "xyQ", 12, 0.2), spoly(g, lu(g, 6, 1), "x", 9)
        if any(unZ(c) % p for _, c in h):
            gs.append([load(0, f), load(1, h), op("pmodpoly", d=2, a=0, b=1, m=Z(p))])
    for _ in range(2 * big):                                  # divisors that vanish modulo p are refused
        p = fp(g)
        f, h = spoly(g, lu(g, 12), "xyQ", 12, 0.2), spoly(g, lu(g, 6), "x", 9)
        gs.append([load(0, f), load(1, canon({tuple(m): p * unZ(c) for m, c in h})), op("pmodpoly", d=2, a=0, b=1, m=Z(p)), op("pcopy", d=3, a=0)])
    return {"poly": groups(gs, 10)}


def C07(g, big):
    gs = []
    for _ in range(10 * big):
        p = fp(g)
        n = lu(g, 40)
        c = dense(g, n, p, g.pick([0, 0, 0.5]))
        a, b = dense(g, lu(g, 40), p), dense(g, lu(g, 30), p)
        if g.chance(0.7):
            a = pmul(a, c)
        b = pmul(b, c)
        gs.append([load(0, a), load(1, b), op("pgcd", d=2, a=0, b=1, m=Z(p)), op("pcoprime", a=1, b=0, m=Z(p)), op("pmonic", d=3, a=1, m=Z(p))])
    for _ in range(2 * big):                                  # big coefficients
        p = fp(g)
        f, h = spoly(g, lu(g, 9, 1), "x", 12), spoly(g, lu(g, 6, 1), "x", 9)
        if any(unZ(c) % p for _, c in h):
            gs.append([load(0, f), load(1, h), op("pgcd", d=2, a=0, b=1, m=Z(p)), op("pcoprime", a=0, b=1, m=Z(p)), op("pmonic", d=3, a=1, m=Z(p))])
    return {"poly": groups(gs, 10)}


def C08(g, big):
    gs = []
    for _ in range(5 * big):
        f = spoly(g, lu(g, 320), "xyq", 50, g.pick([0, 0.3]))
        f = canon({(m[0], m[1] % g.pick([4, 7]), m[2]) + tuple(m[3:]): unZ(c) for m, c in f})
        a, b = g.pick([(g.small(), g.small()), (g.z(), g.z()), (0, g.z()), (g.z(), 0)])
        gs.append([load(0, f), op("pred", d=1, a=0, ca=Z(a), cb=Z(b)), op("predm", d=2, a=0, ca=Z(a), cb=Z(b), m=g.prime_of(g.i(2, 31)))])
    for n in (257, 300, 400, 511, 512, 513, 700):             # the curve with a = 0 or b = 0 modulo p, where few terms survive
        p = g.pick([2, 3])
        z = p * g.pick([0, 1, -1, 5])
        a, b = g.pick([(z, 1), (1, z), (z, z)]) if n < 520 else (z, z)
        gs.append([load(0, canon({(g.i(0, 2), n, 0) + NV: 1, (0, g.i(0, 5), 0) + NV: 1})), op("predm", d=1, a=0, ca=Z(a), cb=Z(b), m=p)])
        gs.append([load(0, canon({(g.i(0, 2), g.pick([2000, 32768, 65536, 10**5]) + g.i(0, 1), 0) + NV: -1})), op("pred", d=1, a=0, ca=Z(0), cb=Z(0)), op("predm", d=1, a=0, ca=Z(p), cb=Z(0), m=p)])
    return {"poly": groups(gs, 10)}


SUB = 2 * 10**5        # exponents of a substituted variable: an implementation may go through them one at a time


def C09(g, big):
    gs = []
    for _ in range(4 * big):                                  # long polynomials
        f = spoly(g, lu(g, 320), g.pick(["xy", "xyQ", "x", "y", "xY", "Xy"]), g.pick([3, 20, 60]), g.pick([0, 0.3]), g.pick([2, 64, 300]))
        v, w = g.pick([0, 1, -1, 2, -3, g.z()]), g.pick([0, 1, -1, 2, -3, g.z()])
        ev = [load(0, f)]
        xs, ys = all(m[0] >= 0 for m, _ in f), all(m[1] >= 0 for m, _ in f)
        if xs:
            ev.append(op("pevalx", d=1, a=0, x=Z(v)))
        if ys:
            ev.append(op("pevaly", d=2, a=0, x=Z(w)))
        if xs and ys and all(m[2] == 0 and m[3] == -1 for m, _ in f):
            ev.append(op("pevalxy", a=0, x=Z(v), y=Z(w)))
        ev += [op("pfrob", d=3, a=0, n=g.pick([0, 2, lu(g, 10**6)])), op("pypow", d=3, a=0, n=g.pick([0, 2, lu(g, 10**6)])), op("pqpow", d=3, a=0, n=g.pick([1, -1]) * g.pick([0, 2, lu(g, 10**6)]))]
        gs.append(ev)
    for _ in range(3 * big):                                  # values of every size
        n = lu(g, 20)
        v, w = g.pick([1, -1]) * g.r.getrandbits(lu(g, 1200)), g.pick([1, -1]) * g.r.getrandbits(lu(g, 1200))
        f = spoly(g, lu(g, 8), "xy", n, 0)
        gs.append([load(0, f), op("pevalxy", a=0, x=Z(v), y=Z(w)), op("pevalx", d=1, a=0, x=Z(v)), op("pevaly", d=1, a=1, x=Z(w)), op("pscalar", a=1), tload(0, (g.i(0, n), g.i(0, n), 0) + NV, g.nz()), op("mevalxy", a=0, x=Z(v), y=Z(w))])
    for _ in range(4 * big):                                  # substitution: long into short, short into long, monomials with large exponents
        k = g.i(0, 2)
        if k == 0:
            f, h = spoly(g, lu(g, 10), "xyQ", 3, 0.2), spoly(g, lu(g, 14), g.pick(["xy", "XYQ", "x", "q"]), 40, 0)
        elif k == 1:
            f, h = spoly(g, lu(g, 200), "xyQ", 4, 0.2), spoly(g, g.i(0, 2), g.pick(["xy", "XYQ", "x"]), 9, 0, 8)
        else:
            f, h = spoly(g, lu(g, 40), "xyQ", 20, 0.2), spoly(g, 1, "XYQ", 10**7, 0, 40)
        t = g.pick(f) if f else [[2, 3, 1, -1, -1], Z(-2)]
        gs.append([load(0, f), load(1, h), op("psubx", d=2, a=0, b=1), op("psuby", d=3, a=0, b=1), tload(0, tuple(t[0]), unZ(t[1])), op("tsubx", d=4, a=0, b=1), op("tsuby", d=4, a=0, b=1), op("msubx", d=4, a=0, b=1), op("msuby", d=4, a=0, b=1)])
    for _ in range(3 * big):                                  # large exponents of the other variables and of the unit values
        e, u = lu(g, SUB), g.pick([0, 1, -1])
        t = (g.i(0, 3), lu(g, I31), g.pick([1, -1]) * lu(g, I31)) + (wvar(g) if g.chance(0.5) else NV)
        h = spoly(g, g.i(1, 3), "x", 3, 0, 9)
        gs.append([tload(0, t, coef(g)()), load(1, h), op("tsubx", d=2, a=0, b=1), op("msubx", d=2, a=0, b=1), tload(1, (t[1], t[0]) + t[2:], coef(g)()), op("tsuby", d=2, a=1, b=1), op("msuby", d=2, a=1, b=1),
                   tload(2, (0, 0, e) + NV, 1), op("mevalq", a=2, n=u), tload(3, (e, lu(g, SUB), 0) + NV, 1), op("mevalxy", a=3, x=Z(u), y=Z(g.pick([0, 1, -1]))),
                   load(4, spoly(g, lu(g, 40), "xy", SUB, 0)), op("pevalxy", a=4, x=Z(u), y=Z(g.pick([0, 1, -1])))])
    for _ in range(3 * big):                                  # constants
        for k in range(3):                                    # anything else is refused
            m = [0, 0, 0]
            m[k] = g.pick([1, -1, g.pick([1, -1]) * lu(g, I31, 1)])
            t = canon({tuple(m) + NV: g.nz()})
            gs.append([load(0, t), op("pscalar", a=0), load(1, canon({**pdict(t), ONE: g.nz()})), op("pscalar", a=1), load(2, spoly(g, lu(g, 9), "XYQ", 9)), op("pscalar", a=2), op("pscalar", a=3)])
        gs.append([load(0, canon({ONE: coef(g)()})), op("pscalar", a=0), load(1, spoly(g, lu(g, 60), g.pick(["x", "y", "xy"]), g.pick([2, 1000, I31]))), op("pscalar", a=1)])
    return {"poly": groups(gs, 10)}


def C10(g, big):
    gs = []
    for _ in range(6 * big):
        f = spoly(g, lu(g, 320), g.pick(["x", "y", "xy", "xyQ", "xQ", "yq"]), g.pick([3, 100, I31]), g.pick([0, 0.3]))
        t = g.pick(f) if f else [[2, 3, 10**6, -1, -1], Z(7)]
        gs.append([load(0, f), op("pderx", d=1, a=0), op("pdery", d=2, a=0), tload(0, tuple(t[0]), unZ(t[1])), op("tderx", d=1, a=0), op("tdery", d=2, a=0)])
    return {"poly": groups(gs, 10)}


def C11(g, big):
    gs = []
    for _ in range(6 * big):
        f = spoly(g, lu(g, 320), g.pick(["q", "Q"]), g.pick([3, 20, 400, I31]), g.pick([0, 0.3, 1]))
        qs = [m[2] for m, _ in f] or [0]
        ev = [load(0, f)]
        for k in (g.pick(qs), g.pick([1, -1]) * lu(g, I31)):
            ev += [op("pcopy", d=1, a=0), op("pomit", d=1, n=k), op("pqcoef", d=2, a=0, n=k)]
        gs.append(ev)
    for _ in range(5 * big):                                  # truncated powers: many terms, large exponents, large coefficients
        n = g.i(0, 5)
        e = g.pick([4, 60, 10**4, I31 // (2 * max(1, n))])
        f = spoly(g, lu(g, 40) if n < 4 else lu(g, 9), "q", e, 0)
        gs.append([load(0, f), op("ppowq", d=1, a=0, n=n, k=g.pick([lu(g, e), e, lu(g, I31)]))])
    for n in (100, 200, 500, 1000):                           # high powers of few terms
        f = canon({(0, 0, 0) + NV: g.pick([1, -1]), (0, 0, g.i(1, 3)) + NV: g.pick([1, -1, 2])})
        gs.append([load(0, f), op("ppowq", d=1, a=0, n=n, k=g.i(2, 12)), load(0, canon({(0, 0, 1) + NV: -1})), op("ppowq", d=1, a=0, n=n, k=g.pick([n, n - 1, n + 1]))])
    for _ in range(4 * big):
        f = spoly(g, lu(g, 320), "", 1, 1)
        vs = [tuple(m[3:]) for m, _ in f] or [(0, 0)]
        gs.append([load(0, f)] + [op("pvarcoef", a=0, x=list(g.pick(vs))) for _ in range(4)] + [op("pvarcoef", a=0, x=list(wvar(g)))])
    return {"poly": groups(gs, 10)}


def C12(g, big):
    gs = []
    for _ in range(8 * big):
        f = spoly(g, lu(g, 320), g.pick(VS), g.pick([3, 100, I31]), g.pick([0, 0.3, 1]))
        h = spoly(g, lu(g, 100), g.pick(["x", "X"]), g.pick([3, 100, I31]))
        a, b = (g.pick(f), g.pick(f)) if f else ([list(ONE), Z(1)], [list(ONE), Z(-1)])
        m = list(a[0])
        if g.chance(0.5):
            m[g.i(0, 2)] = g.pick([1, -1]) * lu(g, I31)
        gs.append([op("pload", d=0, x=g.shuffle(f)), op("plead", d=0, a=0), op("phas", a=0), op("tget", a=0), op("thas", a=0), load(1, g.shuffle(h)), op("pdeg", a=1), op("plead", d=1, a=1),
                   tload(2, tuple(a[0]), unZ(a[1])), tload(3, tuple(m), unZ(b[1])), op("tsame", a=2, b=3), op("tget", a=2), op("thas", a=2), op("teq", a=2, b=3), op("mcmp", x=list(a[0]), y=m), op("mcmp", x=list(b[0]), y=list(a[0])),
                   op("vcmp", x=list(wvar(g)), y=list(wvar(g)))])
    return {"poly": groups(gs, 15)}


def C13(g, big):
    gs = []
    for _ in range(6 * big):
        f = spoly(g, lu(g, 100), g.pick(VS), g.pick([3, 100, I31]), g.pick([0, 0.3, 1]), g.pick([None, 2, 30, 64]))
        t = g.pick(f) if f else [list(ONE), Z(-1)]
        gs.append([op("pload", d=0, x=g.shuffle(f)), op("pstr", a=0), tload(0, tuple(t[0]), unZ(t[1])), op("tstr", a=0), op("vstr", x=list(wvar(g)))])
    return {"poly": groups(gs, 10)}


def C30(g, big):
    out = []
    for _ in range(6 * big):
        ev = [op("bnew")]
        s = lambda: g.pick([1, -1]) * lu(g, I31)
        for _ in range(g.i(3, 12)):
            ev.append(g.pick([lambda: op("bcoef", n=s(), v=g.i(0, 2)), lambda: op("bcoefz", x=Z(coef(g)()), v=g.i(0, 1)), lambda: op(g.pick(["bx", "by", "bq"]), n=s()), lambda: op("bvar", x=list(wvar(g))),
                              lambda: op("bvarij", x=list(wvar(g))), lambda: op("bvarij", x=[-lu(g, I31) - 1 if g.chance(0.5) else lu(g, I31), -lu(g, I31 - 1) - 1]), lambda: op("bclone")])())
        out.append(ev + [op("bbuild", d=0), op("bpol", d=0)])
    return {"poly": out}


def bits(g, hi):
    """a number of bits, every order of magnitude equally likely"""
    return lu(g, hi, 1)


def zz(g, hi, sign=True):
    """an integer of up to hi bits: dense, sparse, nearly a power of two, long runs of ones"""
    n = bits(g, hi)
    k = g.i(0, 5)
    v = 1 << (n - 1) | g.r.getrandbits(n) if k < 3 else (1 << n) + g.i(-2, 2) if k == 3 else (1 << n) - (1 << g.i(0, n)) if k == 4 else \
        sum(1 << g.i(0, n) for _ in range(3))
    return v * g.pick([1, -1]) if sign else max(1, abs(v))


def C14(g, big):
    import math
    ev = []
    for _ in range(40 * big):
        m = zz(g, 900, False)
        ev.append(op("zpowmod", x=Z(zz(g, 900)), n=Z(zz(g, g.pick([10, 64, 300]), False) if g.chance(0.9) else 0), m=Z(m)))
        p = g.prime_of(g.i(2, 14)) if g.chance(0.3) else g.prime_of(g.pick([g.i(15, 70), g.i(70, 200), g.i(200, 400)]))
        x = zz(g, 900)
        if x % p:
            ev.append(op("zinv", x=Z(x), m=Z(p)))
        # how far the argument is from a multiple of p
        x = p * zz(g, 70) + g.pick([1, -1]) * lu(g, p - 1, 1)
        if x % p:
            ev += [op("zinv", x=Z(x), m=Z(p)), op("zpowmod", x=Z(x), n=Z(p - 2), m=Z(p))]
    return {"num": chunks(ev, 60)}


def C15(g, big):
    ev = []
    for _ in range(50 * big):
        c = zz(g, g.pick([1, 60, 900]))
        a, b = zz(g, g.pick([70, 900])) * c, zz(g, g.pick([70, 900])) * c
        ev.append(op("egcd", x=Z(a), y=Z(b)))
        # quotients of every size: a = q b + r
        q, r = zz(g, g.pick([8, 200])), g.pick([0, lu(g, abs(b), 0)])
        ev += [op("egcd", x=Z(q * b + r), y=Z(b)), op("egcd", x=Z(b), y=Z(-(q * b + r)))]
        # a given sequence of quotients
        u, v = 1, 0
        for _ in range(lu(g, 120, 1)):
            u, v = u * (lu(g, 2**g.pick([2, 2, 9, 33, 65]), 1)) + v, u
        ev.append(op("egcd", x=Z(u * g.pick([1, -1]) * c), y=Z(v * g.pick([1, -1]) * c)))
    return {"num": chunks(ev, 60)}


def C16(g, big):
    import math
    ev = []
    for _ in range(25 * big):
        n, h = lu(g, 40, 1), g.pick([4, 12, 33, 65, 130, 300, 700])
        ms = []
        for _ in range(4 * n):
            m = zz(g, h if g.chance(0.8) else 4, False)
            if all(math.gcd(m, o) == 1 for o in ms):
                ms.append(m)
        ms = g.pick([g.shuffle, sorted, lambda l: sorted(l)[::-1]])(ms[:n])
        cs = [[Z(m), Z(zz(g, g.pick([1, h, 2 * h])) if g.chance(0.7) else g.pick([0, 1, -1, m, m - 1, m // 2, 1 - m, m + 1]))] for m in ms]
        ev += [op("crt", x=cs, v=g.i(0, 1)), op("crt", x=g.shuffle(cs), v=g.i(0, 1))]
        r = zz(g, g.pick([8, 64, 300]), g.chance(0.5))           # the residues of one number
        ev.append(op("crt", x=[[Z(m), Z(r % m)] for m in ms], v=0))
    return {"num": chunks(ev, 40)}


def C27(g, big):
    import num
    ev = []
    for _ in range(14 * big):
        n = lu(g, 9 if g.chance(0.9) else 18, 1)
        rows = n + lu(g, 12)
        c = coef(g, g.pick([1, 2, 3, 8, 31, 40, 63, 64, 100]))
        dens = g.pick([1.0, 0.6, 0.35, 1.5 / n])
        m = [[c() if g.chance(dens) else 0 for _ in range(n)] for _ in range(rows)]
        k = g.i(0, 3)
        if k == 0:                                            # bands
            w = lu(g, n)
            m = [[c() if 0 <= j - i % n <= w or (i >= n and g.chance(0.2)) else 0 for j in range(n)] for i in range(rows)]
        elif k == 1 and n > 1:                                # blocks
            h = g.i(1, n - 1)
            m = [[c() if (j < h) == (i % n < h) else 0 for j in range(n)] for i in range(rows)]
        elif k == 2:                                          # combinations of a few rows first
            b = m[:max(1, n // 2)]
            m = [[sum(x) for x in zip(*[[g.small(3) * y for y in g.pick(b)] for _ in range(2)])] for _ in range(g.i(1, 5))] + m
        m = g.pick([list, g.shuffle, lambda l: list(l)[::-1]])(m)
        if num.rank_ok(m, n):
            s = [g.pick([0, c(), zz(g, 90)]) for _ in range(n)]
            ev.append(op("solve", x=[[Z(x) for x in r] + [Z(sum(x * y for x, y in zip(r, s)))] for r in m], s=[Z(x) for x in s]))
    return {"num": chunks(ev, 12)}


def refusals(pid, g, big):
    """arguments outside an operation's domain, which it refuses"""
    gs, num = [], []
    far = lambda: g.pick([1, 2, lu(g, I31, 1)])
    for k in range(2 * big):
        if pid == "C04":
            f = spoly(g, lu(g, 30, 1), g.pick(VS), 50, 0.3) or canon({ONE: 1})
            gs.append([load(0, f), tload(0, tuple(f[0][0]), unZ(f[0][1])), op("prem", d=1, a=0, m=Z(0), v=k % 2), op("pmodeq", d=0, m=Z(0)), op("tmod", d=1, a=0, m=Z(0)), op("tmodeq", d=0, m=Z(0)), op("pcopy", d=2, a=0)])
        if pid == "C06":
            p = fp(g)
            m = g.pick([(0, far(), 0), (0, 0, far()), (g.i(1, 4), -far(), 0), (g.i(0, 4), 0, -far()), (2, 1, 1)]) + NV
            h = canon({**pdict(spoly(g, lu(g, 9), "x", 9)), m: g.pick([1, -1, p + 1])})
            gs.append([load(0, spoly(g, lu(g, 12), "xyQ", 12, 0.2)), load(1, h), op("pmodpoly", d=2, a=0, b=1, m=Z(p)), op("pcopy", d=2, a=1)])
        if pid == "C10":
            e = far()
            m, t = (g.i(0, 3), -e, g.i(-3, 3)), (-e, g.i(0, 3), g.i(-3, 3))
            for o, w, ok in (("dery", m, "derx"), ("derx", t, "dery")):
                f = canon({**pdict(spoly(g, lu(g, 30), "xyQ", 50, 0.2)), w + NV: g.nz()})
                gs.append([load(0, f), tload(0, w + g.pick([NV, wvar(g)]), g.nz()), op("p" + o, d=1, a=0), op("t" + o, d=1, a=0), op("p" + ok, d=1, a=0), op("t" + ok, d=1, a=0)])
        if pid == "C11":
            m = g.pick([(far(), 0, 0), (0, far(), 0), (-far(), 0, 2), (0, -far(), -1), (1, 1, 0)]) + g.pick([NV, wvar(g)])
            f = canon({**pdict(spoly(g, lu(g, 30), "q", 50, 0.2)), m: g.nz()})
            h = canon({**pdict(spoly(g, lu(g, 9), "", 1, 1)), (0, 0, g.pick([1, -1]) * far()) + g.pick([NV, wvar(g)]): g.nz()})
            v = [m for m, _ in h]
            gs.append([load(0, f), op("pcopy", d=1, a=0), op("pomit", d=1, n=g.pick([0, g.i(-50, 50), I31])), op("ppowq", d=2, a=0, n=g.i(0, 3), k=g.i(0, 60)), op("pqcoef", d=2, a=0, n=g.i(-9, 50)), op("pvarcoef", a=0, x=list(wvar(g))),
                       load(3, h), op("pvarcoef", a=3, x=list(g.pick(v)[3:])), op("pvarcoef", a=3, x=list(NV))])
        if pid == "C12":
            m = g.pick([(0, far(), 0), (0, 0, far()), (g.i(-4, 4), -far(), 0), (g.i(-4, 4), 0, -far()), (2, 1, 1)]) + g.pick([NV, wvar(g)])
            gs.append([load(0, canon({**pdict(spoly(g, lu(g, 30), "x", 50, 0.2)), m: g.nz()})), op("pdeg", a=0), op("plead", d=0, a=0)])
        if pid == "C14":
            num += [op("zinv", x=Z(zz(g, 90)), m=Z(m)) for m in (1, 0, -1, -g.prime_of(g.i(2, 40)), -zz(g, 90, False))]
        if pid == "C27":
            for n in (1, 2, 3, lu(g, 9, 2)):
                rows = g.i(max(1, n - 1), n + 4)
                m = [[g.small(g.pick([2, 9])) for _ in range(n)] for _ in range(rows)]
                c = g.i(0, n - 1)
                v = [g.pick([0, 1, -1, 2]) for _ in range(n)]
                v[c] = 1
                for r in m:                                   # column c is a combination of the others
                    r[c] = -sum(x * y for j, (x, y) in enumerate(zip(r, v)) if j != c)
                num.append(op("solve", x=[[Z(x) for x in r] + [Z(g.pick([0, g.small(9)]))] for r in m], k=[Z(x) for x in v]))
    return {"poly": groups(gs, 15), "num": chunks(num, 20)}


def wide(pid, g, big):
    """operands of many hundred terms, one call of each operation"""
    gs = []
    size = lambda: g.pick([g.i(321, 640), g.i(641, 1030), g.i(1000, 2100)])
    for k in range(big):
        if pid == "C01":
            vs = g.pick(["x", "q", "xy", "XYQ"])
            f = spoly(g, size(), vs, 10**7, g.pick([0, 0.5]), 64)
            h = related(g, f, size(), vs, 10**7, 64)
            t = g.pick(f)
            s = spoly(g, g.i(2, 3), vs, 9, 0, 8)
            ev = [load(0, f), load(1, h), op("padd", d=2, a=0, b=1, v=g.i(0, 3)), op("psub", d=3, a=1, b=0, v=g.i(0, 3)), op("pneg", d=4, a=0), op("pcopy", d=5, a=0), op("paddeq", d=5, b=1, v=0),
                  op("psubeq", d=5, b=0, v=1), tload(0, tuple(t[0]), -unZ(t[1])), op("ptadd", d=6, a=0, b=0, v=g.i(0, 3)), op("tpsub", d=6, a=0, b=1, v=g.i(0, 3)), op("ptaddeq", d=5, b=0, v=0)]
            gs.append(ev)
            f = spoly(g, size(), vs, 10**7, 0, 64)
            gs.append([load(0, f), load(1, s), op("pmul", d=2, a=0, b=1, v=g.i(0, 3)), op("pmuleq", d=1, b=0, v=g.i(0, 1)), tload(0, (3, 1, 2) + NV, -5), op("ptmul", d=3, a=0, b=0, v=g.i(0, 3))])
        elif pid == "C02":
            f = spoly(g, size(), g.pick(["x", "q", "XYQ"]), 10**7, g.pick([0, 0.5]), 64)
            t = g.pick(f)
            gs.append([load(0, f), load(1, f[:-1]), op("peq", a=0, b=1), tload(0, tuple(t[0]), -unZ(t[1])), tload(1, tuple(f[-1][0]), unZ(f[-1][1])), op("ptaddeq", d=1, b=1, v=0), op("peq", a=0, b=1),
                       op("ptaddeq", d=1, b=0, v=1), op("peq", a=1, b=0), op("psubeq", d=0, b=1, v=0), op("psubeq", d=1, b=1, v=0), op("peq", a=1, b=2), op("phas", a=1)])
        elif pid == "C05":
            f = spoly(g, size(), g.pick(["x", "q", "XYQ"]), 10**6, g.pick([0, 0.5]), 64)
            c = g.pick([1, -1, 2, 7])
            m = (g.i(0, 9), 0, g.i(-9, 9)) + NV
            gs.append([load(0, f), load(1, canon({m: c})), tload(0, m, c), op("pdiv", d=2, a=0, b=1, v=g.i(0, 3)), op("ptdiv", d=3, a=0, b=0, v=g.i(0, 3)), op("pdiveq", d=0, b=1, v=g.i(0, 1))])
        elif pid == "C09":
            f = spoly(g, size(), g.pick(["xy", "xyQ"]), g.pick([40, 300]), 0, 16)
            gs.append([load(0, f), op("pevalx", d=1, a=0, x=Z(g.pick([1, -1, 2]))), op("pevaly", d=2, a=0, x=Z(g.pick([0, 1, -1, 2]))), op("pfrob", d=3, a=0, n=g.i(2, 1000)), op("pypow", d=3, a=0, n=g.i(2, 1000)), op("pqpow", d=4, a=0, n=g.i(-1000, -2))])
            f = spoly(g, size(), "xy", g.pick([60, 300]), 0, 16)
            gs.append([load(0, f), op("pevalxy", a=0, x=Z(g.pick([1, -1, 2, -3])), y=Z(g.pick([1, -1, 2]))), load(1, canon({(1, 0, 1) + NV: -1})), op("psubx", d=2, a=0, b=1), op("psuby", d=3, a=0, b=1)])
        elif pid == "C10":
            f = spoly(g, size(), g.pick(["x", "y", "xy", "xyQ"]), I31, g.pick([0, 0.3]), 64)
            gs.append([load(0, f), op("pderx", d=1, a=0), op("pdery", d=2, a=0)])
        elif pid == "C11":
            f = spoly(g, size(), g.pick(["q", "Q"]), g.pick([3000, I31]), 0, 64)
            qs = sorted(m[2] for m, _ in f)
            ev = [load(0, f), op("pqcoef", d=2, a=0, n=g.pick(qs)), op("pqcoef", d=2, a=0, n=qs[-1])]
            for n in (qs[len(qs) // 2], qs[-1]):
                ev += [op("pcopy", d=1, a=0), op("pomit", d=1, n=n)]
            gs.append(ev)
            f = spoly(g, size(), "", 1, 1, 30)
            gs.append([load(0, f)] + [op("pvarcoef", a=0, x=list(g.pick(f)[0][3:])) for _ in range(3)])
        elif pid == "C12":
            f = spoly(g, size(), g.pick(["x", "XYQ", "xyq"]), g.pick([3000, I31]), g.pick([0, 0.3]), 30)
            h = spoly(g, size(), "x", g.pick([3000, I31]), 0, 30)
            gs.append([op("pload", d=0, x=g.shuffle(f)), op("plead", d=0, a=0), op("phas", a=0), load(1, g.shuffle(h)), op("pdeg", a=1), op("plead", d=1, a=1)])
        elif pid == "C13":
            gs.append([load(0, spoly(g, g.i(321, 900), g.pick(VS), I31, g.pick([0, 0.5]), 64)), op("pstr", a=0)])
    return groups(gs, 1)


def with_spread(pid, gen):
    f = globals()[pid]

    def both(g, big):
        r = gen(g, big)
        for k, cs in f(g, 3 * big).items():
            r.setdefault(k, []).extend(cs)
        for k, cs in refusals(pid, g, 3 * big).items():
            if cs:
                r.setdefault(k, []).extend(cs)
        w = wide(pid, g, 3 * big)
        if w:
            r.setdefault("poly", []).extend(w)
        return r
    return both
