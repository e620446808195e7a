"""Scripts for the polynomial and term operations (kind "poly": checked by TracePoly)."""
import itertools
from common import *

PV = ["padd", "psub", "pmul"]


def two(g):
    """two polynomials that may be multiplied (an unknown in at most one of them)"""
    kind = g.pick(["xy", "lau", "any", "q", "x", "xyqu"])
    e = g.pick([2, 4, 4, 9])
    u = g.pick([0, 0.3, 1])
    a = g.poly(kind=kind, e=e, u=u)
    k2 = {"any": "lau", "q": "qn", "xyqu": "xyq"}.get(kind, kind)
    b = g.poly(kind=k2, e=e, u=0)
    c = g.i(0, 11)
    if c == 0:
        b = pmul(a, canon({ONE: -1})) if u == 0 or kind in ("xy", "lau", "x") else b
    elif c == 1 and a:                       # partial cancellation
        neg = [[m, Z(-unZ(z))] for m, z in a]
        k = g.i(0, len(neg) - 1)
        part = neg[k:]
        b = padd(b, part) if all(m[3] == -1 for m, _ in part) else b
    elif c == 2:
        b = []
    elif c == 3:
        b = canon({ONE: g.pick([1, -1, 2])})
    elif c == 4 and a:                       # same monomials, other coefficients
        b = canon({tuple(m): g.nz() for m, _ in a if m[3] == -1})
    if g.chance(0.5):
        a, b = b, a
    return a, b


def big_exps(g):
    """polynomials whose exponents are large in absolute value"""
    d = {}
    for _ in range(g.i(1, 4)):
        d[(g.pick([0, 1, -1, 127, 128, 255, 256, 32767, 65536, -65536, 10**8, -10**8]),
           g.pick([0, 0, 1, 200, -200, 10**6]), g.pick([0, 0, -3, 1000, 10**7]), -1, -1)] = g.nz()
    return canon(d)


def ring_ops(g, a, b):
    """every variant of + - * on two loaded polynomials, then in-place forms and neighbours"""
    ev = [load(0, a), load(1, b)]
    for o in PV:
        ev.append(op(o, d=2, a=0, b=1, v=g.i(0, 3)))
        ev.append(op(o, d=3, a=1, b=0, v=g.i(0, 3)))
    ev += [op("pneg", d=4, a=0, v=g.i(0, 1)), op("padd", d=5, a=4, b=0, v=0), op("psub", d=5, a=0, b=0, v=g.i(0, 3))]
    for o in g.shuffle(["paddeq", "psubeq", "pmuleq"]):
        ev += [op("pcopy", d=6, a=0), op(o, d=6, b=1, v=g.i(0, 1))]
    ev += [op("padd", d=6, a=0, b=0, v=g.i(0, 3)), op("paddeq", d=6, b=6, v=g.i(0, 1)), op("psubeq", d=6, b=6, v=g.i(0, 1)),
           op("peq", a=6, b=7), op("piszero", a=6)]
    # operands are left alone
    ev += [op("pcopy", d=7, a=0), op("pcopy", d=7, a=1)]
    return ev


def term_ops(g):
    """every variant of + - * between polynomials and terms"""
    kind = g.pick(["xy", "lau", "any", "q"])
    u = g.pick([0, 0.5])
    f = g.poly(kind=kind, u=u)
    free = not any(m[3] != -1 for m, _ in f)
    mk = lambda uu: g.mono(kind if uu else {"any": "lau", "q": "qn"}.get(kind, kind), u=uu)
    s, t = mk(0), mk(0.5 if free else 0)
    if f and g.chance(0.5):
        m = g.pick([m for m, _ in f])
        if free or m[3] == -1:
            t = tuple(m)
            if g.chance(0.5):
                s = t if t[3] == -1 else s
    cs, ct = g.z(), g.z()
    if f and g.chance(0.3):
        ct = -dict((tuple(m), unZ(c)) for m, c in f).get(t, -ct)
    if s == t and g.chance(0.5):
        cs = -ct
    ev = [load(0, f), tload(0, s, cs), tload(1, t, ct)]
    for o in ["ptadd", "ptsub", "ptmul"]:
        ev.append(op(o, d=1, a=0, b=g.i(0, 1), v=g.i(0, 3)))
    for o in ["tpadd", "tpsub", "tpmul"]:
        ev.append(op(o, d=2, a=g.i(0, 1), b=0, v=g.i(0, 3)))
    for o in ["ttadd", "ttsub"]:
        ev += [op(o, d=3, a=0, b=1, v=g.i(0, 3)), op(o, d=3, a=1, b=1, v=g.i(0, 3))]
    ev += [op("ttmul", d=2, a=0, b=1, v=g.i(0, 3)), op("ttmul", d=2, a=1, b=0, v=g.i(0, 3)), op("ttmul", d=3, a=0, b=0, v=g.i(0, 3)),
           op("tneg", d=2, a=0, v=g.i(0, 1)), op("tneg", d=2, a=1, v=g.i(0, 1)), op("topol", d=4, a=0), op("topol", d=4, a=1)]
    for k in (0, 1):
        ev += [op("pcopy", d=5, a=0), op("ptaddeq", d=5, b=k, v=g.i(0, 1))]
    ev += [op("pcopy", d=7, a=0)]
    return ev


EDGES = [2**k + d for k in (7, 8, 15, 16, 31, 32, 53, 63, 64, 127, 128) for d in (-1, 0, 1)]


def edge_sums(g):
    """sums, differences and products of one or two coefficients around the machine words"""
    a = g.pick([1, -1]) * g.pick(EDGES)
    b = g.pick([1, -1, a, -a, 1 - a, -1 - a, g.pick(EDGES), -g.pick(EDGES), 2])
    m = g.mono(g.pick(["lau", "xy", "q"]), 3, 0)
    k = g.mono("lau", 3, 0)
    f = canon({m: a, k: g.pick([a, b, 1])} if g.chance(0.5) else {m: a})
    h = canon({m: b, k: g.pick([a, b, -1])} if g.chance(0.5) else {m: b})
    ev = [load(0, f), load(1, h), tload(0, m, a), tload(1, m, b)]
    for o in PV:
        ev.append(op(o, d=2, a=g.i(0, 1), b=1, v=g.i(0, 3)))
    ev += [op("pcopy", d=3, a=0), op(g.pick(["paddeq", "psubeq", "pmuleq"]), d=3, b=1, v=g.i(0, 1)), op("ptaddeq", d=3, b=1, v=g.i(0, 1)),
           op("ptaddeq", d=3, b=0, v=g.i(0, 1)), op("pneg", d=4, a=0, v=g.i(0, 1)),
           op(g.pick(["ptadd", "ptsub", "ptmul"]), d=4, a=0, b=1, v=g.i(0, 3)), op(g.pick(["tpadd", "tpsub", "tpmul"]), d=4, a=1, b=0, v=g.i(0, 3)),
           op("ttadd", d=4, a=0, b=1, v=g.i(0, 3)), op("ttsub", d=4, a=0, b=1, v=g.i(0, 3)), op("ttmul", d=2, a=0, b=1, v=g.i(0, 3)), op("tneg", d=2, a=0, v=g.i(0, 1))]
    return ev


def cancellations(g, obs=lambda r: []):
    """every operator in every variant on operands that cancel in one term, several, or all"""
    gs = []
    for o, vs in [("padd", 4), ("psub", 4), ("paddeq", 2), ("psubeq", 2), ("ptadd", 4), ("ptsub", 4), ("tpadd", 4), ("tpsub", 4), ("ptaddeq", 2), ("ttadd", 4), ("ttsub", 4)]:
        for v in range(vs):
            for shape in ("only", "first", "middle", "last", "all", "some"):
                kind = g.pick(["xy", "x", "q", "lau", "any"])
                n = 1 if shape == "only" else g.pick([2, 3, 4, 5, 9]) if shape != "middle" else g.pick([3, 4, 5, 9])
                f = []
                while len(f) < n:
                    f = g.poly(n + 3, kind, g.pick([1, 2, 4, 9]), g.pick([0, 0.5, 1]))[:n]
                at = {"only": [0], "first": [0], "last": [n - 1], "middle": [g.i(1, max(1, n - 2))], "all": range(n)}.get(shape) or [i for i in range(n) if g.chance(0.5)] or [0]
                neg = o in ("padd", "paddeq", "ptadd", "tpadd", "ptaddeq", "ttadd")
                part = [[f[i][0], Z((-1 if neg else 1) * unZ(f[i][1]))] for i in at if i < n]
                t = part[0]
                ev = [load(0, f), load(1, part), tload(0, tuple(t[0]), unZ(t[1])), tload(1, tuple(f[at[0]][0]), unZ(f[at[0]][1]))]
                if o in ("padd", "psub"):
                    # the shorter operand on either side
                    ev += [op(o, d=2, a=0, b=1, v=v)] + obs(2) + [op(o, d=2, a=1, b=0, v=v)] + obs(2)
                elif o in ("paddeq", "psubeq"):
                    ev += [op("pcopy", d=2, a=0), op(o, d=2, b=1, v=v)] + obs(2) + [op("pcopy", d=2, a=1), op(o, d=2, b=0, v=v)] + obs(2)
                elif o in ("ptadd", "ptsub"):
                    ev += [op(o, d=2, a=0, b=0, v=v)] + obs(2)
                elif o in ("tpadd", "tpsub"):
                    ev += [op(o, d=2, a=0, b=0, v=v)] + obs(2)
                elif o == "ptaddeq":
                    ev += [op("pcopy", d=2, a=0), op(o, d=2, b=0, v=v)] + obs(2)
                else:
                    ev += [op(o, d=2, a=0, b=1, v=v)] + obs(2) + [op(o, d=2, a=1, b=0, v=v)] + obs(2)
                gs.append(ev)
    # products that telescope
    for _ in range(40):
        a, b = g.mono("lau", 3, 0), g.mono("lau", 3, 0)
        n = g.i(1, 9)
        f = canon({a: 1, b: -1}) if a != b else canon({a: 1})
        h = canon({tuple(x * i + y * (n - i) for x, y in zip(a[:3], b[:3])) + NV: g.pick([1, 1, 1, -1]) if n < 3 else 1 for i in range(n + 1)})
        ev = [load(0, f), load(1, h), op("pmul", d=2, a=0, b=1, v=g.i(0, 3))] + obs(2) + [op("pmul", d=3, a=1, b=0, v=g.i(0, 3))] + obs(3) + \
             [op("pcopy", d=4, a=1), op("pmuleq", d=4, b=0, v=g.i(0, 1))] + obs(4) + [op("pmul", d=5, a=0, b=0, v=g.i(0, 3))] + obs(5)
        gs.append(ev)
    return gs


def many_terms(g, n):
    """sums of long polynomials, built up and torn down again"""
    f = g.poly(n, "xyq", e=12, u=0)
    h = g.poly(n, "xyq", e=12, u=0)
    ev = [load(0, f), load(1, h), op("padd", d=2, a=0, b=1, v=0), op("psub", d=3, a=2, b=1, v=1), op("peq", a=3, b=0),
          op("psubeq", d=2, b=0, v=0), op("peq", a=2, b=1), op("psub", d=4, a=0, b=1, v=3), op("pneg", d=5, a=4, v=0),
          op("padd", d=6, a=5, b=4, v=2), op("piszero", a=6)]
    return ev


def layouts(g):
    """sums of two polynomials for every relative position of their monomials: a word over a (only in the first),
    b (only in the second), = (in both), in the order of the monomials"""
    n, m, k = g.i(0, 7), g.i(0, 7), g.i(0, 4)
    w = g.pick(["a" * n + "=" * k + "b" * m, "b" * m + "=" * k + "a" * n, "a" * n + "=" + "b" * m, "b" * n + "=" + "a" * m, "=" * k + "a" * n + "b" * m,
                "a" * n + "b" * m + "=" * k, "=" + "a" * n + "=", "=" + "b" * n + "=", "a" + "b" * n + "a", "b" + "a" * n + "b", "ab" * k + "=", "=" + "ba" * k,
                "ab=" * k, "=" * n, "=" * n + "b", "=" * n + "a", "a" + "=" * n, "b" + "=" * n, "".join(g.pick("ab=") for _ in range(n + k))])
    u = g.pick([0, 0, 0.4])
    vs, e = g.pick([("x", 20), ("x", 40), ("lau", 3), ("xyq", 4), ("y", 30), ("q", 30)])
    ms = set()
    while len(ms) < len(w):
        ms.add(g.mono(vs, e, u))
        e += 1
    ms = sorted(ms)
    k = g.i(0, 3)

    def c():
        return [g.small(9) or 1, g.pick([1, -1]), g.nz(), g.pick([2, -2, 3])][k]
    f, h = {}, {}
    for x, q in zip(w, ms):
        if x != "b":
            f[q] = c()
        if x != "a":
            h[q] = c() if x == "b" or g.chance(0.5) else g.pick([1, 1, -1]) * f[q]
    return [load(0, canon(f)), load(1, canon(h)), op("padd", d=2, a=0, b=1, v=g.i(0, 3)), op("padd", d=3, a=1, b=0, v=g.i(0, 3)), op("peq", a=2, b=3),
            op("psub", d=4, a=0, b=1, v=g.i(0, 3)), op("psub", d=5, a=1, b=0, v=g.i(0, 3)), op("pcopy", d=6, a=0), op("paddeq", d=6, b=1, v=g.i(0, 1)), op("peq", a=6, b=2),
            op("pcopy", d=6, a=0), op("psubeq", d=6, b=1, v=g.i(0, 1)), op("peq", a=6, b=4), op("paddeq", d=4, b=5, v=0), op("piszero", a=4)]


def C01(g, big):
    gs = []
    for _ in range(90 * big):
        gs.append(layouts(g))
    for _ in range(110 * big):
        gs.append(ring_ops(g, *two(g)))
    for _ in range(90 * big):
        gs.append(term_ops(g))
    for _ in range(max(1, big // 4)):
        gs += cancellations(g)
    for _ in range(50 * big):
        gs.append(edge_sums(g))
    for _ in range(15 * big):
        gs.append(ring_ops(g, big_exps(g), big_exps(g)))
    for n in [20, 40, 70] * max(1, big // 3) + [100, 130, 257]:
        gs.append(many_terms(g, n))
    for n in [8, 9, 15, 16, 17, 31, 32, 33] * max(1, big // 4):       # products of long polynomials, with many collisions
        e = g.pick([2, 3, 6, 20])
        c = g.pick([None, None, lambda: g.pick([-1, 1])])
        gs.append(ring_ops(g, g.poly(n, g.pick(["xy", "lau", "xyq"]), e, 0, c), g.poly(g.pick([1, 2, 3, n, 17]), "lau", e, 0, c)))
    for n in range(1, 28):                                    # univariate, (nearly) no gaps, any lowest exponents
        for k in range(3) if big > 8 else (n % 3, (n // 3) % 3, 0):
            def dense(n, lo):
                c = g.pick([lambda: g.pick([1, -1]), lambda: g.small(9), g.z])
                return canon({tuple(lo + i if j == k else 0 for j in range(3)) + NV: c() if 0 < i < n - 1 and g.chance(0.9) else 1 for i in range(n)})
            m = g.pick([n, n, 1, 2, g.i(1, 27)])
            gs.append(ring_ops(g, dense(n, g.pick([0, 0, 1, -1, -n, g.i(-30, 30)])), dense(m, g.pick([0, 0, 2, -2, -m, g.i(-30, 30)]))))
    for a in XE:                                              # exponents of every size whose sums fit
        for _ in range(max(1, big // 4)):
            b = g.pick([e for e in XE if abs(a + e) < 2**31])
            k = g.i(0, 2)
            def mm(e):
                m = [g.pick([0, 0, 1, -1]) for _ in range(3)]
                m[k] = e
                return tuple(m) + NV
            f, h = canon({mm(a): g.nz(), mm(max(-2**31 + 1, a - 1)): g.pick([1, -1])}), canon({mm(b): g.nz(), mm(0): g.pick([1, -1])})
            gs.append(ring_ops(g, f, h) if abs(a) < 2**31 - 2 and abs(a + b) < 2**31 - 2 and abs(2 * b) < 2**31 - 2 and abs(2 * a) < 2**31 - 2 else
                      [load(0, canon({mm(a): g.nz()})), load(1, canon({mm(b): g.nz()})), op("padd", d=2, a=0, b=1, v=g.i(0, 3)), op("psub", d=2, a=0, b=1, v=g.i(0, 3))] +
                      ([op("pmul", d=2, a=0, b=1, v=g.i(0, 3))] if abs(a + b) < 2**31 - 2 else []))
    # long running histories: a register is only changed in place
    for _ in range(3 * big):
        ev = [load(0, g.poly(4, "lau", 3)), load(1, g.poly(3, "lau", 3)), tload(0, g.mono("lau", 3), g.nz())]
        for _ in range(30):
            o = g.pick(["paddeq", "psubeq", "paddeq", "psubeq", "ptaddeq", "pmuleq", "re"])
            if o == "ptaddeq":
                ev += [tload(0, g.mono("lau", 3), g.small(5)), op(o, d=0, b=0, v=g.i(0, 1))]
            elif o == "pmuleq":
                ev += [load(2, canon({g.mono("lau", 1): g.pick([1, -1, 2])})), op(o, d=0, b=2, v=g.i(0, 1))]
            elif o == "re":
                ev += [load(1, g.poly(3, "lau", 3, coef=lambda: g.pick([-2, -1, 1, 2])))]
            else:
                ev += [op(o, d=0, b=1, v=g.i(0, 1))]
        gs.append(ev)
    return {"poly": groups(gs, 120)}


def C02(g, big):
    """operations that cancel, each followed by the observations that depend on canonical form"""
    gs = []

    def obs(r):
        return [op("piszero", a=r), op("phas", a=r), op("plead", d=3, a=r), op("peq", a=r, b=7), op("pisone", a=r), op("pstr", a=r)]

    def c():
        return g.pick([-3, -2, -1, 1, 2, 3])
    for _ in range(max(1, big // 4)):
        gs += cancellations(g, obs)
    for _ in range(15 * big):
        gs.append(layouts(g))
    for _ in range(60 * big):
        p = g.pick([2, 3, 5, 7])
        f = g.poly(g.i(1, 6), "xy", 2, 0, c)
        h = g.poly(g.i(1, 6), "xy", 2, 0, c)
        k = g.i(0, 19)
        ev = [load(0, f), load(1, h), load(7, [])]
        if k == 0:
            ev += [op("padd", d=2, a=0, b=1, v=g.i(0, 3)), op("psubeq", d=2, b=0, v=0), op("psubeq", d=2, b=1, v=1)] + obs(2)
        elif k == 1:            # (f+h)(f-h) - f^2 + h^2
            ev += [op("padd", d=2, a=0, b=1, v=0), op("psub", d=3, a=0, b=1, v=0), op("pmul", d=4, a=2, b=3, v=g.i(0, 3)),
                   op("psquare", d=5, a=0), op("psubeq", d=4, b=5, v=0), op("psquare", d=5, a=1), op("paddeq", d=4, b=5, v=0)] + obs(4)
        elif k == 2:
            ev += [op("pmul", d=2, a=0, b=1, v=0), op("prem", d=2, a=2, m=Z(p), v=g.i(0, 1))] + obs(2)
        elif k == 3:
            ev += [tload(0, g.mono("xy", 2), c()), op("ptmul", d=2, a=0, b=0, v=0), op("ptdiv", d=2, a=2, b=0, v=0),
                   op("psub", d=2, a=2, b=0, v=0)] + obs(2)
        elif k == 4:
            ev += [tload(0, ONE, g.pick([2, 3, 5, -4])), op("ptdiv", d=2, a=0, b=0, v=0)] + obs(2) + \
                  [op("pcopy", d=4, a=0), op("ptdiveq", d=4, b=0, v=g.i(0, 1))] + obs(4)
        elif k == 5:
            ev += [op("pred", d=2, a=0, ca=Z(c()), cb=Z(0))] + obs(2)
        elif k == 6:
            ev += [op("predm", d=2, a=0, ca=Z(c()), cb=Z(c()), m=p)] + obs(2)
        elif k == 7:
            ev += [op("pevalx", d=2, a=0, x=Z(g.pick([0, 1, -1, 2])))] + obs(2) + [op("pevaly", d=2, a=0, x=Z(g.pick([0, 1, -1, 2])))] + obs(2)
        elif k == 8:
            ev += [load(6, g.poly(g.i(0, 2), "xy", 1, 0, c)), op("psubx", d=2, a=0, b=6)] + obs(2) + [op("psuby", d=2, a=0, b=6)] + obs(2)
        elif k == 9:
            ev += [op("pfrob", d=2, a=0, n=g.i(0, 2)), op("pypow", d=3, a=0, n=0)] + obs(2) + obs(3)
        elif k == 10:
            q = g.poly(g.i(1, 5), "q", 4, 0, c)
            ev += [load(2, q), op("pqpow", d=3, a=2, n=0)] + obs(3) + [op("pomit", d=2, n=g.i(-2, 2))] + obs(2) + [op("pqcoef", d=2, a=2, n=0)] + obs(2)
        elif k == 11:
            ev += [op("pderx", d=2, a=0)] + obs(2) + [op("pdery", d=2, a=0)] + obs(2)
        elif k == 12:
            u = g.upoly(g.i(0, 5), p)
            w = g.upoly(g.i(0, 3), p, lead=1)
            ev += [load(2, pmul(u, w)), load(3, w), op("pmodpoly", d=4, a=2, b=3, m=Z(p))] + obs(4) + [op("pgcd", d=4, a=2, b=3, m=Z(p))] + obs(4)
        elif k == 13:
            ev += [op("ppowmod", d=2, a=0, n=Z(g.i(0, 4)), m=Z(p))] + obs(2)
        elif k == 14:
            ev += [load(2, [[m, Z(p * unZ(z))] for m, z in f]), op("prem", d=3, a=2, m=Z(p), v=1)] + obs(3) + [op("pmodeq", d=2, m=Z(p))] + obs(2)
        elif k == 15:
            q = g.poly(g.i(1, 3), "qn", 3, 0, c)
            ev += [load(2, q), op("ppowq", d=3, a=2, n=g.i(0, 3), k=g.i(0, 4))] + obs(3)
        elif k == 16:
            m = g.mono("xy", 2)
            ev += [tload(0, m, 2), tload(1, m, -2), op("ttadd", d=2, a=0, b=1, v=g.i(0, 3))] + obs(2) + \
                  [op("ttsub", d=2, a=0, b=0, v=g.i(0, 3))] + obs(2)
        elif k == 17:
            m = g.mono("xy", 2)
            ev += [tload(0, m, 0), op("topol", d=2, a=0)] + obs(2) + [op("ptadd", d=2, a=0, b=0, v=0), op("peq", a=2, b=0),
                  op("ptmul", d=2, a=0, b=0, v=0)] + obs(2) + [op("tpadd", d=2, a=0, b=0, v=1), op("peq", a=2, b=0), op("ttadd", d=2, a=0, b=0, v=0)] + obs(2)
        elif k == 18:
            ev += [load(2, []), op("pmul", d=3, a=0, b=2, v=0)] + obs(3) + [op("pmuleq", d=0, b=2, v=0)] + obs(0) + [op("ppow", d=3, a=2, n=g.i(0, 2), v=0)] + obs(3)
        else:
            ev += [op("pcube", d=2, a=0), op("pmul", d=3, a=0, b=0, v=0), op("pmuleq", d=3, b=0, v=1), op("psub", d=4, a=2, b=3, v=0)] + obs(4)
        gs.append(ev)
    out = groups(gs, 120)
    # a sample of every other property's scripts
    import spread
    for f in (C01, C03, C04, C05, C06, C07, C08, C09, C10, C11):
        cs = f(g, max(1, big // 4))["poly"]
        out += [c for c in cs if g.chance(0.15 if f is not C01 else 0.05)]
        out += getattr(spread, f.__name__)(g, max(1, big // 4))["poly"]
    return {"poly": out}


BITS = [127, 128, 129, 191, 255, 256, 257, 341, 511, 512, 682, 1000, 1023, 1024, 1025]


def C03(g, big):
    num, gs = [], []
    for n in list(range(0, 80)) + [g.i(80, 300) for _ in range(3 * big)]:
        for v in (0, 1, 2):
            if n < 40:
                num.append(op("zpow", x=Z(g.pick([2, -2, 3, -3, 10])), n=n, v=v))
            num.append(op("zpow", x=Z(g.pick([2, 3, -1, -2, -3, 7, g.z(), g.small(30)])), n=n, v=v))
    for n in BITS:
        num.append(op("zpow", x=Z(g.pick([2, -2, 3, -3, 10, 12])), n=n, v=g.i(0, 2)))
    for b in (0, 1, -1):                                      # exponents of any size
        for n in [2**31 - 1, 2**30, 12345, 65535, 65536, 1000001, 2**24 + 1, 2**31 - 2]:
            for v in (0, 1, 2):
                num.append(op("zpow", x=Z(b), n=n, v=v))
    for b in [e * s for e in EDGES for s in (1, -1)]:
        for n in (g.i(0, 3), g.i(2, 9)):
            num.append(op("zpow", x=Z(b), n=n, v=g.i(0, 2)))
    for b in (0, 1, -1, 2, -2, 2**64, -(2**63)):
        for n in (0, 1, 2, 3, 4, 5, 7, 8, 31, 32, 33, 64, 100):
            num.append(op("zpow", x=Z(b), n=n, v=g.i(0, 2)))
    for _ in range(20 * big):
        num.append(op("zpow", x=Z(g.z()), n=g.i(0, 24), v=g.i(0, 2)))
    for n in list(range(0, 70)) + [g.i(70, 200) for _ in range(10)]:       # terms
        for v in (0, 1, 2):
            m = g.mono("lau", 5)
            gs.append([tload(0, m, g.pick([0, 1, -1, 2, -3, g.z()])), op("tpow", d=1, a=0, n=n, v=v)])
    for n in (127, 255, 256, 1000):
        gs.append([tload(0, g.mono("lau", 4), g.pick([1, -1, 2, -3])), op("tpow", d=1, a=0, n=n, v=g.i(0, 2))])
    for n in range(0, 70):                                    # one term
        for v in (0, 1, 2):
            gs.append([load(0, canon({g.mono("lau", 4, 0): g.pick([1, -1, 2, -2, 3])})), op("ppow", d=1, a=0, n=n, v=v)])
    for n in range(0, 30):                                    # two terms
        for v in (0, 1, 2):
            gs.append([load(0, g.poly(2, g.pick(["xy", "lau", "qn"]), 2, 0, lambda: g.pick([-2, -1, 1, 3]))), op("ppow", d=1, a=0, n=n, v=v)])
    for n in range(0, 13):                                    # polynomials
        for _ in range(max(3, big // 2)):
            f = g.poly(g.pick([0, 1, 2, 2, 3]) if n > 6 else g.i(0, 5), g.pick(["xy", "lau", "qn"]), 3, 0,
                       coef=None if n < 8 else lambda: g.pick([-2, -1, 1, 3]))
            gs.append([load(0, f), op("ppow", d=1, a=0, n=n, v=g.i(0, 2))])
    for n in (13, 15, 16, 17, 23, 24, 31, 32, 33, 47, 63, 64):
        f = canon({(1, 0, 0, -1, -1): g.pick([1, -1, 2]), ONE: g.pick([1, -1, -2])}) if n < 40 else canon({g.mono("lau", 3): g.pick([-1, 2, 3])})
        gs.append([load(0, f), op("ppow", d=1, a=0, n=n, v=g.i(0, 2))])
    for _ in range(10 * big):
        f = g.poly(g.i(0, 6), g.pick(["xy", "lau"]), 3, 0)
        gs.append([load(0, f), op("psquare", d=1, a=0), op("pcube", d=2, a=0), op("pmul", d=3, a=1, b=0, v=0), op("peq", a=3, b=2)])
    for v in (0, 1, 2):                                       # with unknowns: the powers 0 and 1
        for n in (0, 1):
            for k in (1, 1, 2, 3, 5, 9):
                f = g.poly(k, g.pick(["q", "any", "xyqu"]), 4, 1)
                gs.append([load(0, f), op("ppow", d=1, a=0, n=n, v=v)])
            gs.append([load(0, canon({(0, 0, 0) + g.var(): g.pick([1, -1, 5])})), op("ppow", d=1, a=0, n=n, v=v), op("peq", a=0, b=1), op("pisone", a=1)])
    for n in range(2, 12):                                    # a few terms without x; one variable at a time; common factors
        for kind in ("x", "y", "qn", "lau"):
            f = g.poly(g.pick([2, 3]), kind, 4, 0, lambda: g.pick([1, -1, 2, -3, 6]))
            gs.append([load(0, f), op("ppow", d=1, a=0, n=n if n < 8 else n - 5, v=g.i(0, 2))])
    # modular powers
    for p in list(range(1, 14)) + [15, 16, 25, 27]:           # exponents tied to the modulus
        for n in sorted({p - 1, p, p + 1, 2 * p, p * p if p < 5 else p}):
            for kind in ("xy", "x", "lau", "qn"):
                f = g.poly(g.i(1, 3) if n < 9 else g.i(1, 2), kind, 2, 0)
                gs.append([load(0, f), op("ppowmod", d=1, a=0, n=Z(n), m=Z(p))])
                gs.append([load(0, padd(f, canon({ONE: 1}))), op("ppowmod", d=1, a=0, n=Z(n), m=Z(p))])
    for n in range(0, 40):
        p = g.pick([2, 3, 4, 5, 6, 7, 9, 10, 101])
        gs.append([load(0, g.poly(g.i(1, 2), g.pick(["xy", "x", "lau", "qn"]), 2, 0)), op("ppowmod", d=1, a=0, n=Z(n), m=Z(p))])
        gs.append([load(0, canon({g.mono("lau", 3, 0): g.nz()})), op("ppowmod", d=1, a=0, n=Z(n), m=Z(g.modulus()))])
    for n in list(range(0, 9)) + [11, 16]:
        for _ in range(2 * big):
            p = g.pick([1, 2, 3, 4, 5, 6, 7, 12, 101, 65537, 2**61 - 1, 2**127 - 1])
            f = g.poly(g.i(0, 4) if n < 6 else g.i(0, 2), g.pick(["xy", "x", "lau"]), 3, 0)
            gs.append([load(0, f), op("ppowmod", d=1, a=0, n=Z(n), m=Z(p)), op("ppow", d=2, a=0, n=n, v=0),
                       op("prem", d=3, a=2, m=Z(p), v=1), op("peq", a=1, b=3)])
    for _ in range(12 * big):                                 # huge exponents of constants
        p = g.modulus()
        gs.append([load(0, canon({ONE: g.z()})), op("ppowmod", d=1, a=0, n=Z(g.pick([2**31 - 1, 2**32, 2**64 + 1, g.r.getrandbits(200)])), m=Z(p))])
    for n in (17, 25, 31, 64, 100, 125):                      # Frobenius: few terms survive
        p = g.pick([2, 3, 5])
        gs.append([load(0, canon({(1, 0, 0, -1, -1): 1, ONE: g.i(1, p)})), op("ppowmod", d=1, a=0, n=Z(n), m=Z(p))])
    for n in list(range(0, 20)) + [31, 32, 33, 64, 100, 255, 256]:
        for _ in range(max(1, big // 2)):
            gs.append([tload(0, g.mono("lau", 3, 0), g.z()), op("tpowmod", d=1, a=0, n=n, m=Z(g.modulus()))])
    return {"num": chunks(num, 40), "poly": groups(gs, 60)}


def near(g, p):
    return g.pick([p - 1, p, p + 1, -p, -p + 1, -p - 1, 2 * p, -3 * p, p * p, -p * p + 1, 0, 1, -1, g.z(), g.residue(p)])


def C04(g, big):
    gs = []
    for _ in range(120 * big):
        p = g.modulus()
        f = canon({g.mono(g.pick(["any", "xy", "q"]), 4, g.pick([0, 0.3, 1])): near(g, p) for _ in range(g.pick([0, 1, 1, 2, 3, 5, 7, 18]))})
        small = p < 2**31
        ev = [load(0, f), op("prem", d=1, a=0, m=Z(p), v=0 if small and g.chance(0.5) else 1),
              op("prem", d=2, a=1, m=Z(p), v=1), op("peq", a=1, b=2), op("pmodeq", d=0, m=Z(p)), op("peq", a=0, b=1),
              op("pmodeq", d=0, m=Z(p)), op("piszero", a=1)]
        ev += [tload(0, g.mono("any", 4), near(g, p)), op("tmod", d=1, a=0, m=Z(p)), op("tmodeq", d=0, m=Z(p)), op("teq", a=0, b=1)]
        gs.append(ev)
    for p in list(range(1, 12)) + [g.pick(EDGES) for _ in range(12)]:       # every small coefficient, one at a time and together
        cs = range(-2 * p - 1, 2 * p + 2) if p < 12 else [k * p + d for k in (-3, -2, -1, 0, 1, 2) for d in (-1, 0, 1)]
        f = canon({(i, 0, 0, -1, -1): c for i, c in enumerate(cs)})
        gs.append([load(0, f)] + ([op("prem", d=1, a=0, m=Z(p), v=0)] if p < 2**31 else []) + [op("prem", d=2, a=0, m=Z(p), v=1), op("pmodeq", d=0, m=Z(p))])
        for c in cs:
            m = g.mono("any", 3)
            gs.append([load(0, canon({m: c})), op("prem", d=1, a=0, m=Z(p), v=1), op("pmodeq", d=0, m=Z(p)), op("piszero", a=0), tload(0, m, c), op("tmod", d=1, a=0, m=Z(p)), op("tmodeq", d=0, m=Z(p))])
    for _ in range(30 * big):                                 # commutes with + - *
        p = g.modulus()
        a, b = two(g)
        ev = [load(0, a), load(1, b)]
        for o in PV:
            ev += [op(o, d=2, a=0, b=1, v=0), op("prem", d=2, a=2, m=Z(p), v=1), op("prem", d=3, a=0, m=Z(p), v=1),
                   op("prem", d=4, a=1, m=Z(p), v=1), op(o, d=5, a=3, b=4, v=0), op("prem", d=5, a=5, m=Z(p), v=1), op("peq", a=2, b=5)]
        gs.append(ev)
    return {"poly": groups(gs, 100)}


def C05(g, big):
    gs = []
    for _ in range(120 * big):
        f = g.poly(kind=g.pick(["any", "lau", "xy", "q"]))
        m = g.mono(g.pick(["lau", "xy", "qn", "x"]), 4)
        c = g.pick([1, -1, 2, -2, 3, -3, 7, -7, g.nz()])
        ev = [load(0, f), tload(0, m, c), load(1, canon({m: c}))]
        k = g.i(0, 3)
        if k == 0:         # (f t) / t = f
            ev += [op("ptmul", d=2, a=0, b=0, v=g.i(0, 3)), op("ptdiv", d=3, a=2, b=0, v=g.i(0, 3)), op("peq", a=3, b=0),
                   op("pdiveq", d=2, b=1, v=g.i(0, 1)), op("peq", a=2, b=0)]
        elif k == 1:
            ev += [op("pdiv", d=2, a=0, b=1, v=g.i(0, 3)), op("ptdiv", d=3, a=0, b=0, v=g.i(0, 3)), op("peq", a=2, b=3)]
        elif k == 2:
            ev += [op("pcopy", d=2, a=0), op("pdiveq", d=2, b=1, v=g.i(0, 1)), op("pcopy", d=3, a=0), op("ptdiveq", d=3, b=0, v=g.i(0, 1)), op("peq", a=2, b=3)]
        else:
            ev += [tload(1, g.mono("any", 4), g.z()), op("tpdiv", d=2, a=1, b=1, v=g.i(0, 3)), op("ttdiv", d=2, a=1, b=0, v=g.i(0, 3)),
                   op("ttmul", d=3, a=1, b=0, v=g.i(0, 3)), op("ttdiv", d=3, a=3, b=0, v=g.i(0, 3)), op("teq", a=3, b=1)]
        gs.append(ev)
    for h in [[], canon({ONE: 1, (1, 0, 0, -1, -1): 1}), canon({ONE: 1, (0, 1, 0, -1, -1): -1}), canon({ONE: 1, (0, 0, 1, -1, -1): 1}), canon({ONE: 1, (0, 0, 0, 0, 1): 1}),
              canon({(1, 0, 0, -1, -1): 2, (0, 1, 0, -1, -1): 2}), canon({(0, 0, 0, 1, 1): 1, (0, 0, 0, 0, 1): 1}), canon({ONE: -1, (0, 0, -1, -1, -1): 1}),
              canon({(2, 0, 0, -1, -1): 1, (1, 0, 0, -1, -1): 1}), canon({(k, 0, 0, -1, -1): 1 for k in range(3)}), canon({(k, 0, 0, -1, -1): 1 for k in range(4)})]:
        for f in [[], h, canon({ONE: 1}), canon({ONE: -6}), g.poly(2, "xy"), g.poly(5, "lau"), pmul(h, canon({(1, 1, 1, -1, -1): 3})),
                  pmul(h, h) if not any(m[3] != -1 for m, _ in h) else h]:
            ev = [load(0, f), load(1, h), tload(0, g.mono("lau"), g.z()), tload(1, ONE, 0)]
            for v in range(4):
                ev += [op("pdiv", d=2, a=0, b=1, v=v), op("tpdiv", d=2, a=0, b=1, v=v), op("tpdiv", d=2, a=1, b=1, v=v)]
            for v in range(2):
                ev += [op("pcopy", d=2, a=0), op("pdiveq", d=2, b=1, v=v), load(2, f)]
            gs.append(ev)
    for n in (2, 3, 4, 7):                                    # two or more terms, any shape
        for _ in range(6 * big):
            h = []
            while len(h) < 2:
                h = g.poly(n, g.pick(["x", "y", "q", "qn", "xy", "lau", "any"]), g.pick([1, 2, 4]), 0.5, g.pick([None, lambda: g.pick([1, -1]), lambda: g.pick([2, -2, 3])]))
            f = g.pick([lambda: g.poly(kind="lau"), lambda: h, lambda: [], lambda: g.poly(1, "xy")])()
            gs.append([load(0, f), load(1, h), op("pdiv", d=2, a=0, b=1, v=g.i(0, 3)), tload(0, g.mono("lau"), g.z()), op("tpdiv", d=2, a=0, b=1, v=g.i(0, 3)),
                       op("pcopy", d=2, a=0), op("pdiveq", d=2, b=1, v=g.i(0, 1))])
    for _ in range(10 * big):                                 # refusals
        f = g.poly(kind="lau")
        h = g.pick([[], [], g.poly(2, "lau"), g.poly(5, "lau")])
        if len(h) == 1:
            h = []
        v = g.i(0, 3)
        ev = [load(0, f), load(1, h), op("pdiv", d=2, a=0, b=1, v=v), tload(0, g.mono("lau"), g.z()), op("tpdiv", d=2, a=0, b=1, v=v),
              op("pcopy", d=2, a=0)]
        ev += [load(3, f), op("pdiveq", d=3, b=1, v=g.i(0, 1)), load(3, f), op("pcopy", d=4, a=1)]
        gs.append(ev)
    for a in XE:                                              # exponents of every size whose differences fit
        for _ in range(max(1, big // 4)):
            b = g.pick([e for e in XE if abs(a - e) < 2**31 - 2])
            k = g.i(0, 2)
            m, n = [g.i(-2, 2), g.i(-2, 2), g.i(-2, 2), -1, -1], [g.i(-2, 2), g.i(-2, 2), g.i(-2, 2), -1, -1]
            m[k], n[k] = a, b
            if g.chance(0.2):
                m[3:] = g.var()
            c = g.pick([1, -1, 2, g.nz()])
            gs.append([load(0, canon({tuple(m): g.nz()})), tload(0, n, c), load(1, canon({tuple(n): c})), tload(1, m, g.nz()), op("ptdiv", d=2, a=0, b=0, v=g.i(0, 3)),
                       op("pdiv", d=2, a=0, b=1, v=g.i(0, 3)), op("ttdiv", d=2, a=1, b=0, v=g.i(0, 3)), op("tpdiv", d=2, a=1, b=1, v=g.i(0, 3)), op("ptdiveq", d=0, b=0, v=g.i(0, 1))])
    for x in list(range(-9, 10)) + [-10**20, 10**20 + 1, 2**63, -(2**63), 2**64 - 1, -(2**64)]:       # floors, by a constant
        for c in (1, -1, 2, -2, 3, -3, 5, -7, 9, -10, 2**31, -(2**32), 2**63, -(2**63), 10**20):
            gs.append([load(0, canon({(1, 0, 0, -1, -1): x, ONE: 2 * x + 1})), tload(0, ONE, c), op("ptdiv", d=1, a=0, b=0, v=g.i(0, 3)),
                       tload(1, (2, 1, 0, -1, -1), x), op("ttdiv", d=2, a=1, b=0, v=g.i(0, 3))])
    return {"poly": groups(gs, 100)}


FP = [2, 3, 5, 7, 11, 13, 101, 65537, 2**31 - 1, 2**61 - 1, 2**127 - 1, 2**255 - 19]


def X(n):
    return (n, 0, 0, -1, -1)


def all_upolys(p, deg):
    for c in itertools.product(range(p), repeat=deg + 1):
        yield canon({X(i): v for i, v in enumerate(c)})


def fprime(g):
    return g.pick(FP[:6]) if g.chance(0.65) else g.pick(FP) if g.chance(0.6) else g.prime_of(g.i(4, 70))


def C06(g, big):
    gs = []
    for _ in range(260 * big):
        p = fprime(g)
        dg = g.pick([0, 0, 1, 1, 2, 3, 4, 6])
        h = g.upoly(dg, p)
        if g.chance(0.35):                                    # leading coefficients that vanish modulo p
            k = dg + g.i(1, 3)
            h = padd(h, canon({(k, 0, 0, -1, -1): p * g.pick([1, -1, 2])}))
        if all(unZ(c) % p == 0 for _, c in h):
            h = padd(h, canon({ONE: 1}))
        k = g.i(0, 9)
        if k <= 3:
            f = g.upoly(g.pick([None, 0, 1, 2, 3, 5, 8, 12]), p)
        elif k == 4:                                          # other variables are constants
            f = g.poly(g.i(1, 8), "xy", 5, 0, lambda: g.residue(p) or 1)
        elif k == 5:
            f = g.poly(g.i(1, 6), "xyqu", 4, 0.4, lambda: g.residue(p) or 1)
        elif k == 6:
            f = pmul(h, g.upoly(g.i(0, 4), p))                # a multiple of g: remainder 0
        elif k == 7:
            f = padd(pmul(h, g.upoly(g.i(0, 4), p)), g.upoly(max(0, dg - 1), p))
        elif k == 8:
            f = [[m, Z(p * unZ(c))] for m, c in g.upoly(g.i(0, 5))]
        else:
            f = g.upoly(g.i(0, 4), p, lead=p * g.pick([1, 3, -2]))
        gs.append([load(0, f), load(1, h), op("pmodpoly", d=2, a=0, b=1, m=Z(p)), op("pmodpoly", d=3, a=2, b=1, m=Z(p)), op("peq", a=2, b=3)])
    def dm(f, h, p):
        return [load(0, f), load(1, h), op("pmodpoly", d=2, a=0, b=1, m=Z(p))]
    for f in all_upolys(2, 3):                                # every pair of polynomials over F_2
        for h in all_upolys(2, 3):
            if h:
                gs.append(dm(f, h, 2))
    for f in all_upolys(3, 3):                                # and over F_3
        for h in all_upolys(3, 2):
            if h and (big > 8 or g.chance(0.5)):
                gs.append(dm(f, h, 3))
    for n in [e for e in XE if e > 5]:                        # high degrees that differ little; other exponents of every size
        p = fprime(g)
        d = g.i(0, 3)
        gs.append(dm(canon({(n, g.pick(XE), g.pick(XE), -1, -1): g.i(1, p - 1), X(g.i(0, n - 1)): 1, (n - d - 1, 0, 5, -1, -1): 1, (g.i(0, 5), g.pick(XE), 0) + g.var(): g.residue(p)}),
                     canon({X(n - d): g.i(1, p - 1), X(n - d - g.i(1, n - d) if n > d + 1 else 0): 1}), p))
    for _ in range(12 * big):                                 # the same polynomials with several primes, one after the other
        f, h = g.upoly(g.i(2, 7)), g.upoly(g.i(1, 4), lead=1)
        ev = [load(0, f), load(1, h)]
        qs = g.shuffle([2, 3, 5, 7, 11, 13, 101, 2**31 - 1, g.prime_of(g.i(4, 70))])[:4]
        gs.append(ev + [op("pmodpoly", d=2, a=0, b=1, m=Z(q)) for q in qs + qs[:2]] + [load(1, padd(h, canon({ONE: 1}))), op("pmodpoly", d=2, a=0, b=1, m=Z(qs[1]))])
    for p in (5, 7, 11, 13):                                  # divisors x^k + c, dividends x^n + d x^m
        for k in range(1, 8):
            n = g.i(k, 40)
            gs.append(dm(canon({X(n): 1, X(g.i(0, n - 1)): g.residue(p)}), canon({X(k): g.i(1, p - 1), ONE: g.residue(p)}), p))
            gs.append(dm(canon({X(n): g.residue(p)}), canon({X(k): 1}), p))
    for p in SMALL_PRIMES[:20] + BIG_PRIMES:                  # every leading coefficient matters: non-monic divisors
        for _ in range(3):
            gs.append(dm(g.upoly(g.i(2, 9), p), g.upoly(g.i(1, 4), p, lead=g.i(2, p - 1) if p > 2 else 1), p))
    for _ in range(25 * big):                                 # dividends in x, y, q and unknowns with the same power of x
        p = fprime(g)
        n = g.i(0, 5)
        f = canon({(g.i(max(0, n - 1), n), g.i(0, 3), g.i(-2, 2)) + (g.var() if g.chance(0.3) else NV): g.residue(p) or 1 for _ in range(g.i(2, 10))})
        gs.append(dm(f, g.upoly(g.i(0, 3), p, lead=g.i(1, p - 1)), p))
    for n in (10, 12, 20, 40, 60, 100, 150) + tuple(g.i(5, 50) for _ in range(2 * big)):      # many terms with the same few powers of x
        p = g.pick([2, 3, 5, 7, 101, 2**61 - 1])
        xs = [g.i(0, 6) for _ in range(g.pick([1, 1, 2, 3]))]
        k = g.i(0, 3)
        f = canon({(g.pick(xs), i if k == 0 else g.i(0, n) if k == 2 else 0, i if k == 1 else g.i(-n, n) if k == 2 else 0) + ((i % 7, i) if k == 3 else NV): g.residue(p) or 1
                   for i in range(n)})
        gs.append(dm(f, g.upoly(g.pick([0, 1, 2, 3, max(xs)]), p, lead=g.i(1, p - 1)), p))
    for n in (30, 31, 32, 33, 60, 63, 64, 65, 100, 127, 128, 200):         # long divisions, sparse dividends
        p = g.pick(FP)
        gs.append([load(0, canon({(n, 0, 0, -1, -1): 1, (1, 0, 0, -1, -1): -1})), load(1, g.upoly(g.i(1, 4), p, lead=g.i(1, p - 1))),
                   op("pmodpoly", d=2, a=0, b=1, m=Z(p))])
    return {"poly": groups(gs, 80)}


def C07(g, big):
    gs = []
    for _ in range(220 * big):
        p = fprime(g)
        k = g.i(0, 11)
        u = lambda n: g.upoly(g.i(0, n), p)
        if k <= 3:
            c = u(3)
            a, b = pmul(c, u(3)), pmul(c, u(3))
        elif k <= 5:
            a, b = u(5), u(5)
        elif k == 6:
            a, b = u(5), []
        elif k == 7:
            a = u(4)
            b = [[m, Z(unZ(c) * g.pick([2, 3, -1]))] for m, c in a]
        elif k == 8:
            c = u(2)
            a, b = pmul(c, c), pmul(c, pmul(c, c))
        elif k == 9:
            a, b = u(4), canon({ONE: g.residue(p) or 1})
        elif k == 10:
            a, b = u(3), [[m, Z(p * unZ(c))] for m, c in u(3)]
        else:
            c = u(2)
            a = padd(pmul(c, u(2)), canon({(g.i(4, 6), 0, 0, -1, -1): p * g.pick([1, -1, 3])}))
            b = pmul(c, u(2))
        if all(unZ(c) % p == 0 for _, c in a) and all(unZ(c) % p == 0 for _, c in b):
            b = canon({ONE: 1})
        if g.chance(0.5):
            a, b = b, a
        ev = [load(0, a), load(1, b), op("pgcd", d=2, a=0, b=1, m=Z(p)), op("pgcd", d=3, a=1, b=0, m=Z(p)), op("peq", a=2, b=3),
              op("pcoprime", a=0, b=1, m=Z(p)), op("pcoprime", a=1, b=0, m=Z(p))]
        if any(unZ(c) % p for _, c in a):
            ev += [op("pgcd", d=4, a=0, b=0, m=Z(p)), op("pmonic", d=5, a=0, m=Z(p)), op("peq", a=4, b=5)]
        gs.append(ev)
    for f in all_upolys(2, 3):                                # every pair of polynomials over F_2
        for h in all_upolys(2, 3):
            if f or h:
                gs.append([load(0, f), load(1, h), op("pgcd", d=2, a=0, b=1, m=Z(2)), op("pcoprime", a=0, b=1, m=Z(2))])
    for f in all_upolys(3, 2):                                # and over F_3
        for h in all_upolys(3, 2):
            if (f or h) and (big > 8 or g.chance(0.5)):
                gs.append([load(0, f), load(1, h), op("pgcd", d=2, a=0, b=1, m=Z(3)), op("pcoprime", a=0, b=1, m=Z(3))])
    for p in (2, 3, 5, 7, 13):                                # monic forms: each leading coefficient, any representative, sparse
        for c in range(1, p):
            for _ in range(3):
                f = g.upoly(g.i(0, 6), p, lead=c + p * g.pick([0, 0, -1, 1, 5]))
                gs.append([load(0, f), op("pmonic", d=1, a=0, m=Z(p)), load(2, []), op("pgcd", d=3, a=0, b=2, m=Z(p)), op("pgcd", d=4, a=2, b=0, m=Z(p))])
    for p in SMALL_PRIMES[1:20] + BIG_PRIMES:
        c = g.upoly(g.i(0, 3), p, lead=g.i(1, p - 1))
        a, b = pmul(c, g.upoly(g.i(0, 4), p)), pmul(c, g.upoly(g.i(0, 4), p))
        if any(unZ(x) % p for _, x in a):
            gs.append([load(0, a), load(1, b), op("pgcd", d=2, a=0, b=1, m=Z(p)), op("pgcd", d=3, a=1, b=0, m=Z(p)), op("pcoprime", a=0, b=1, m=Z(p)),
                       op("pmonic", d=4, a=0, m=Z(p))])
    for _ in range(12 * big):                                 # the same polynomials with several primes, one after the other
        f, h = pmul(g.upoly(g.i(1, 3)), canon({X(1): 1, ONE: 1})), pmul(g.upoly(g.i(1, 3), lead=1), canon({X(1): 1, ONE: g.pick([1, 1, 4, -1, 6, 8])}))
        ev = [load(0, f), load(1, h)]
        qs = g.shuffle([2, 3, 5, 7, 11, 13, 101, 2**31 - 1, g.prime_of(g.i(4, 70))])[:4]
        gs.append(ev + [op(o, d=2, a=0, b=1, m=Z(q)) for q in qs + qs[:2] for o in ("pgcd", "pcoprime")] + [load(1, padd(h, canon({ONE: 1}))), op("pgcd", d=2, a=0, b=1, m=Z(qs[1]))])
    for n in [e for e in XE if e > 5]:                        # high degrees
        p = fprime(g)
        d = g.i(0, 3)
        gs.append([load(0, canon({X(n): 1, X(n - d): g.i(1, p - 1)})), load(1, canon({X(n): g.i(1, p - 1), X(n - 1): g.residue(p)})), op("pgcd", d=2, a=0, b=1, m=Z(p)), op("pmonic", d=3, a=1, m=Z(p)),
                   load(2, canon({ONE: g.i(1, p - 1)})), op("pcoprime", a=0, b=1, m=Z(p)), op("pcoprime", a=0, b=2, m=Z(p))])
    for p in (2, 3, 5, 7):                                    # degrees far apart, and high powers of one factor
        r = canon({X(1): 1, ONE: g.residue(p)})
        w, hi = r, []
        for k in range(2, 9):
            w = pmul(w, r)
            hi.append(w)
        for a in hi:
            b = g.pick(hi)
            gs.append([load(0, a), load(1, pmul(b, g.upoly(1, p))), op("pgcd", d=2, a=0, b=1, m=Z(p)), op("pgcd", d=3, a=1, b=0, m=Z(p)), op("pcoprime", a=1, b=0, m=Z(p))])
        for n in (12, 20, 33, 64):
            a = canon({X(n): 1, ONE: -1})
            b = canon({X(g.i(1, n)): 1, ONE: g.pick([-1, 1])})
            gs.append([load(0, a), load(1, b), op("pgcd", d=2, a=0, b=1, m=Z(p)), op("pgcd", d=3, a=1, b=0, m=Z(p)), op("pcoprime", a=0, b=1, m=Z(p))])
    for p in (3, 5, 7, 11, 13, 17, 19, 23):                   # x^p - x against products of linear factors
        f = canon({(p, 0, 0, -1, -1): 1, (1, 0, 0, -1, -1): -1})
        h = canon({ONE: 1})
        for r in g.shuffle(range(p))[:g.i(1, 4)]:
            h = pmul(h, canon({(1, 0, 0, -1, -1): 1, ONE: -r + p * g.i(-1, 1)}))
        gs.append([load(0, f), load(1, h), op("pgcd", d=2, a=0, b=1, m=Z(p)), op("pgcd", d=3, a=1, b=0, m=Z(p))])
        gs.append([load(0, f), load(1, pmul(h, g.upoly(2, p))), op("pgcd", d=2, a=0, b=1, m=Z(p)), op("pcoprime", a=0, b=1, m=Z(p))])
    return {"poly": groups(gs, 80)}


def C08(g, big):
    gs = []
    for _ in range(130 * big):
        a, b = g.pick([(0, 0), (0, 1), (1, 0), (g.z(), g.z()), (g.small(), g.small()), (g.small(), g.small())])
        f = g.poly(g.i(0, 7), g.pick(["xy", "xy", "xyq", "xyqu"]), g.pick([2, 4, 7]), 0.3)
        ev = [load(0, f), op("pred", d=1, a=0, ca=Z(a), cb=Z(b)), op("pred", d=2, a=1, ca=Z(a), cb=Z(b)), op("peq", a=1, b=2)]
        p = g.pick([2, 3, 5, 7, 11, 13, 101, 65537, 2**31 - 1])
        ev += [op("predm", d=3, a=0, ca=Z(a), cb=Z(b), m=p), op("prem", d=4, a=1, m=Z(p), v=1), op("peq", a=3, b=4)]
        gs.append(ev)
    for _ in range(30 * big):                                 # many powers of y in one polynomial, negative powers of x and q
        a, b = g.small(4), g.small(4)
        if g.chance(0.3):
            a, b = g.pick([(0, b), (a, 0), (0, 0), (1, 0), (0, 1), (-1, 0), (0, -1)])
        f = canon({(g.pick([g.i(0, 4), g.i(-6, 9)]), g.i(0, 11), g.pick([0, 0, g.i(-3, 3)])) + (g.var() if g.chance(0.15) else NV): g.pick([-2, -1, 1, 2, g.nz()])
                   for _ in range(g.i(2, 9))})
        p = g.pick([2, 2, 3, 5, 7, 13, 127, 65537, 2**31 - 1])
        gs.append([load(0, f), op("pred", d=1, a=0, ca=Z(a), cb=Z(b)), op("predm", d=2, a=0, ca=Z(a), cb=Z(b), m=p)])
    for p in (2, 3, 5):                                       # every curve, every small power
        for a in range(-1, p + 1):
            for b in range(-1, p + 1):
                f = canon({(g.i(0, 3), k, 0, -1, -1): g.i(1, p) for k in g.shuffle(range(8))[:4]})
                gs.append([load(0, f), op("pred", d=1, a=0, ca=Z(a), cb=Z(b)), op("predm", d=2, a=0, ca=Z(a), cb=Z(b), m=p)])
    for n in range(0, 16):                                    # pure powers of y, with one more variable
        a, b = g.small(), g.small()
        m = (g.i(0, 3), n, g.i(-1, 1)) + (g.var() if g.chance(0.3) else NV)
        gs.append([load(0, canon({m: g.nz()})), op("pred", d=1, a=0, ca=Z(a), cb=Z(b)), op("predm", d=2, a=0, ca=Z(a), cb=Z(b), m=g.pick([2, 3, 5, 7, 13]))])
    for n in XE:                                              # the other exponents, of every size
        if n < 2**31 - 20:
            m = [(n, g.i(0, 3), g.pick([0, 0, g.pick(XE)])), (g.i(-2, 2), g.i(0, 4), n)]
            f = canon({t + (g.var() if g.chance(0.2) else NV): g.nz() for t in m})
            a, b = g.small(), g.small()
            gs.append([load(0, f), op("pred", d=1, a=0, ca=Z(a), cb=Z(b)), op("predm", d=2, a=0, ca=Z(a), cb=Z(b), m=g.prime_of(g.i(2, 31)))])
    for bits in range(2, 32):                                 # primes of every length
        p = g.prime_of(bits)
        a, b = g.residue(p), g.residue(p)
        f = canon({(g.i(0, 4), g.i(0, 5), 0, -1, -1): near(g, p) or 1 for _ in range(5)})
        gs.append([load(0, f), op("predm", d=1, a=0, ca=Z(a), cb=Z(b), m=p), op("predm", d=1, a=0, ca=Z(b), cb=Z(a), m=p), op("predm", d=1, a=0, ca=Z(a), cb=Z(b), m=g.prime_of(g.i(2, 31))),
                   op("predm", d=1, a=0, ca=Z(a), cb=Z(b + 2**64), m=p), op("pred", d=1, a=0, ca=Z(a), cb=Z(b)), op("pred", d=1, a=0, ca=Z(a + 2**64), cb=Z(b)), op("pred", d=1, a=0, ca=Z(a), cb=Z(b - 2**32))])
    for n in (31, 32, 33, 50, 64, 101, 127, 128, 199, 200):                # high powers modulo p
        p = g.pick([3, 5, 7, 11])
        gs.append([load(0, canon({(g.i(0, 2), n, 0, -1, -1): g.i(1, p - 1), (0, g.i(0, 9), 0, -1, -1): 1})),
                   op("predm", d=1, a=0, ca=Z(g.residue(p)), cb=Z(g.residue(p)), m=p)])
    for n in list(range(16, 60, 3)) + [63, 64, 65, 80, 96, 100, 127, 128, 129, 140, 160, 200, 256]:      # special curves: few terms survive, or binomials
        for a, b in [(0, g.pick([1, -1, 2])), (g.pick([1, -1, -3]), 0), (0, 0)]:
            f = canon({(g.pick([0, 0, 1]), n, g.pick([0, 0, 1]), -1, -1): g.pick([1, -1, 3]), (2, n - g.i(1, 9), 0, -1, -1): g.pick([1, -2])})
            gs.append([load(0, f), op("pred", d=1, a=0, ca=Z(a), cb=Z(b))] + ([op("predm", d=1, a=0, ca=Z(a), cb=Z(b), m=g.pick([2, 3, 5, 7]))] if g.chance(0.3) else []))
    for n in (17, 20, 25, 31, 40):
        gs.append([load(0, canon({(0, n, 0, -1, -1): 1})), op("pred", d=1, a=0, ca=Z(g.small(3)), cb=Z(g.small(3)))])
    for _ in range(12 * big):                                 # identities on the curve: f*(y^2 - x^3 - a x - b)
        a, b = g.small(), g.small()
        e = canon({(0, 2, 0, -1, -1): 1, (3, 0, 0, -1, -1): -1, (1, 0, 0, -1, -1): -a, ONE: -b})
        f = pmul(g.poly(g.i(1, 4), "xy", 3, 0), e)
        gs.append([load(0, f), op("pred", d=1, a=0, ca=Z(a), cb=Z(b)), op("piszero", a=1), op("predm", d=1, a=0, ca=Z(a), cb=Z(b), m=g.pick([3, 5, 7])), op("piszero", a=1)])
    return {"poly": groups(gs, 80)}


def C09(g, big):
    gs = []
    V = lambda: g.pick([0, 1, -1, 2, -2, 3, 10, g.z()])
    for _ in range(90 * big):
        f = g.poly(g.i(0, 7), g.pick(["xy", "xyqu", "xyq"]), g.pick([2, 4]), 0.3)
        h = g.poly(g.i(0, 3), "xy", 2, 0)
        v, w = V(), V()
        ev = [load(0, f), load(1, h), op("pevalx", d=2, a=0, x=Z(v)), op("pevaly", d=3, a=0, x=Z(w)), op("pevaly", d=4, a=2, x=Z(w)),
              op("pevalx", d=5, a=3, x=Z(v)), op("peq", a=4, b=5)]
        # homomorphism: f + h and f * h
        ev += [op("padd", d=4, a=0, b=1, v=0), op("pevalx", d=4, a=4, x=Z(v)), op("pmul", d=5, a=0, b=1, v=0), op("pevaly", d=5, a=5, x=Z(w))]
        gs.append(ev)
    for _ in range(60 * big):
        f = g.poly(g.i(0, 6), "xy", 4, 0)
        v, w = V(), V()
        ev = [load(0, f), op("pevalxy", a=0, x=Z(v), y=Z(w)), tload(0, g.mono("xy", 6), g.nz()), op("mevalxy", a=0, x=Z(v), y=Z(w)),
              op("pevalx", d=1, a=0, x=Z(v)), op("pevaly", d=1, a=1, x=Z(w)), op("pscalar", a=1),
              tload(1, (0, 0, g.i(0, 8), -1, -1), g.nz()), op("mevalq", a=1, n=g.small(10)), op("pscalar", a=0)]
        gs.append(ev)
    for _ in range(80 * big):                                 # substitution
        kind = g.pick(["xy", "xyq", "xyqu"])
        f = g.poly(g.i(0, 5), kind, 3, 0.3)
        h = g.pick([lambda: g.poly(g.i(0, 3), "xyq", 2, 0, lambda: g.nz() if g.chance(.2) else g.small(3)), lambda: canon({ONE: V()}),
                    lambda: canon({(1, 0, 0, -1, -1): 1}), lambda: canon({(0, 1, 0, -1, -1): 1}), lambda: []])()
        ev = [load(0, f), load(1, h), op("psubx", d=2, a=0, b=1), op("psuby", d=3, a=0, b=1)]
        t = g.mono(kind, 4, 0.3)
        ev += [tload(0, t, g.z()), op("tsubx", d=2, a=0, b=1), op("tsuby", d=3, a=0, b=1), op("msubx", d=4, a=0, b=1), op("msuby", d=5, a=0, b=1)]
        gs.append(ev)
    for _ in range(40 * big):                                 # many powers of both variables, in every order
        n = g.i(2, 9)
        e = g.pick([3, 6, 12])
        f = canon({(g.i(0, e), g.i(0, e), g.pick([0, 0, 1, -1]), -1, -1): g.pick([-2, -1, 1, 2, g.nz()]) for _ in range(n)})
        h = g.pick([lambda: canon({ONE: V()}), lambda: canon({g.mono("xyq", 2): g.pick([1, -1, 2, -3])}),
                    lambda: canon({(1, 0, 0, -1, -1): g.pick([1, -1, 2]), ONE: g.pick([1, -1, 3])}), lambda: canon({(0, 1, 0, -1, -1): 1, (1, 0, 0, -1, -1): -1})])()
        v, w = g.pick([V(), g.small(3)]), g.pick([V(), g.small(3)])
        gs.append([load(0, f), load(1, h), op("psuby", d=2, a=0, b=1), op("psubx", d=3, a=0, b=1), op("pevalx", d=4, a=0, x=Z(v)), op("pevaly", d=5, a=0, x=Z(w)),
                   op("pevalx", d=4, a=4, x=Z(w)), op("pevaly", d=5, a=5, x=Z(v))] +
                  ([op("pevalxy", a=0, x=Z(v), y=Z(w))] if all(m[2] == 0 for m, _ in f) else []))
    for i in range(0, 9):                                     # single monomials, all small exponents
        for j in range(0, 9):
            c = g.pick([1, -1, 2, g.nz()])
            t = (i, j, g.pick([0, 0, -2])) + (g.var() if g.chance(0.1) else NV)
            h = g.pick([canon({ONE: g.small(3)}), canon({X(1): 1, ONE: g.pick([1, -1])}), canon({(0, 1, 0, -1, -1): 2, ONE: -1}), canon({(1, 1, 1, -1, -1): -1}), []])
            v = V()
            gs.append([tload(0, t, c), load(1, h), op("tsubx", d=2, a=0, b=1), op("tsuby", d=3, a=0, b=1), op("msubx", d=4, a=0, b=1), op("msuby", d=5, a=0, b=1),
                       op("topol", d=2, a=0), op("pevalx", d=3, a=2, x=Z(v)), op("pevaly", d=4, a=2, x=Z(v)), op("psubx", d=5, a=2, b=1), op("psuby", d=5, a=2, b=1)] +
                      ([op("mevalxy", a=0, x=Z(v), y=Z(g.small(4)))] if t[2] == 0 and t[3] == -1 else []))
    for k in list(range(0, 12)) + [31, 63, 64, 127]:          # values of single variables
        for v in (0, 1, -1, 2, -2, g.z()):
            w = v if abs(v) < 10 else g.small(9)
            w = w if abs(w) ** k < 2**30 else g.i(-1, 1)
            gs.append([tload(1, (0, 0, k, -1, -1), g.nz()), op("mevalq", a=1, n=w), load(0, canon({X(k): g.nz(), (0, k, 0, -1, -1): g.nz(), (k, k, 0, -1, -1): 1})),
                       op("pevalxy", a=0, x=Z(v), y=Z(g.pick([0, 1, -1, 2, v])))])
    for _ in range(60 * big):                                 # an unknown in the substituted polynomial
        f = g.poly(g.i(0, 4), "xyq", 1, 0)
        f = [t for t in f if t[0][0] <= 1 and t[0][1] <= 1]
        h = g.poly(g.i(1, 3), "any", 2, 0.8)
        gs.append([load(0, f), load(1, h), op("psubx", d=2, a=0, b=1), op("psuby", d=3, a=0, b=1)])
    for n in [e for e in XE if 0 <= e <= 2 * 10**5]:          # exponents of every size at 0, 1 and -1
        f = canon({(n, g.i(0, 2), 0, -1, -1): g.nz(), (g.i(0, 2), n, 0, -1, -1): g.nz(), (n, g.pick([0, n]), 0, -1, -1): g.nz()})
        h = canon({(n, g.i(0, 2), g.pick(XE)) + (g.var() if g.chance(0.3) else NV): g.nz(), (g.i(0, 2), n, g.small(3), -1, -1): g.nz()})
        ev = [load(0, f), load(1, h), load(3, canon({ONE: g.pick([1, -1])})), load(4, [])]
        for v in (0, 1, -1):
            ev += [op("pevalx", d=2, a=1, x=Z(v)), op("pevaly", d=2, a=1, x=Z(v)), op("pevalxy", a=0, x=Z(v), y=Z(g.pick([0, 1, -1])))]
        gs.append(ev + [op("psubx", d=2, a=1, b=3), op("psuby", d=2, a=1, b=3), op("psubx", d=2, a=1, b=4), op("psuby", d=2, a=1, b=4)])
    for n in [e for e in XE if e > 0]:                        # power maps: products of every size
        k = g.pick([e for e in XE if 0 < e and e * n < 2**31])
        s = g.pick([1, -1])
        f = canon({(s * n, g.i(0, 1), 0, -1, -1): g.nz(), (1, n, g.pick([1, -1]), -1, -1): g.nz(), (0, 0, -s * n) + (g.var() if g.chance(0.4) else NV): g.nz()})
        gs.append([load(0, f), op("pfrob", d=1, a=0, n=k), op("pypow", d=2, a=0, n=k), op("pqpow", d=3, a=0, n=g.pick([k, -k])),
                   tload(0, g.pick([(s * n, 2 if 2 * k < 2**31 else 1, -n), (1, n, 1)]) + NV, g.nz()), op("tfrob", d=1, a=0, n=k), op("typow", d=2, a=0, n=k), op("tqpow", d=3, a=0, n=k)])
    for _ in range(60 * big):                                 # power maps
        f = g.poly(g.i(0, 6), g.pick(["any", "xy", "lau"]), 3, 0.3)
        n = g.pick([0, 1, 2, 3, 4, 5, 7, 8, 13, 16, 31, 64, 100, 1000, 65536])
        ev = [load(0, f), op("pfrob", d=1, a=0, n=n), op("pypow", d=2, a=0, n=n), op("pqpow", d=3, a=0, n=g.pick([n, -n, -1, -2])),
              op("pfrob", d=1, a=0, n=0), op("pypow", d=2, a=0, n=0), op("pqpow", d=3, a=0, n=0)]
        ev += [tload(0, g.mono("any", 4), g.nz()), op("tfrob", d=1, a=0, n=n), op("typow", d=2, a=0, n=n), op("tqpow", d=3, a=0, n=g.pick([n, -n, -3]))]
        gs.append(ev)
    return {"poly": groups(gs, 90)}


def C10(g, big):
    gs = []
    for _ in range(120 * big):
        f, h = g.poly(g.i(0, 7), g.pick(["xy", "xyqu"]), 5, 0.3), g.poly(g.i(0, 5), "xy", 5, 0)
        ev = [load(0, f), load(1, h)]
        for o in ("pderx", "pdery"):
            ev += [op(o, d=2, a=0), op(o, d=3, a=1), op("padd", d=4, a=0, b=1, v=0), op(o, d=5, a=4), op("padd", d=6, a=2, b=3, v=0), op("peq", a=5, b=6),
                   op("pmul", d=4, a=0, b=1, v=0), op(o, d=5, a=4), op("pmul", d=6, a=2, b=1, v=0), op("pmul", d=7, a=0, b=3, v=0),
                   op("paddeq", d=6, b=7, v=0), op("peq", a=5, b=6), op(o, d=2, a=2)]
        gs.append(ev)
    for _ in range(120 * big):
        m = (g.pick([0, 0, 1, 2, 3, 9, 255, 1000]), g.pick([0, 0, 1, 2, 3, 128, 1000]), g.small(3)) + (g.var() if g.chance(0.3) else NV)
        gs.append([tload(0, m, g.nz()), op("tderx", d=1, a=0), op("tdery", d=2, a=0), op("topol", d=0, a=0), op("pderx", d=1, a=0), op("pdery", d=2, a=0)])
    for n in list(range(0, 40)) + [e for e in XE if e >= 40] + [g.i(2**k, 2**(k + 1) - 1) for k in range(5, 31)]:      # each exponent
        for c in (1, -1, g.nz()):
            k = g.pick([0, 1, g.i(0, 9)])
            for m in ((n, k, g.small(2)), (k, n, g.small(2))):
                m = m + (g.var() if g.chance(0.2) else NV)
                gs.append([tload(0, m, c), op("tderx", d=1, a=0), op("tdery", d=2, a=0), load(0, canon({m: c, ONE: 5, (1, 1, 0, -1, -1): -1})), op("pderx", d=1, a=0), op("pdery", d=2, a=0)])
    for c in [e * s for e in EDGES for s in (1, -1)]:         # each size of coefficient
        n, k = g.i(0, 3), g.i(0, 3)
        gs.append([tload(0, (n, k, 0, -1, -1), c), op("tderx", d=1, a=0), op("tdery", d=2, a=0), load(0, canon({(n, k, 0, -1, -1): c, (k + 1, 2, 1, -1, -1): -c})), op("pderx", d=1, a=0), op("pdery", d=2, a=0)])
    for n in (20, 40, 70, 130):                               # long polynomials
        f = g.poly(n, "xyqu", 9, 0.2)
        gs.append([load(0, f), op("pderx", d=1, a=0), op("pdery", d=2, a=0), op("pdery", d=3, a=1), op("pderx", d=4, a=2), op("peq", a=3, b=4)])
    # the other variable may have negative exponents
    for _ in range(40 * big):
        d = {(g.i(0, 4), g.i(-4, 0), g.small(3), -1, -1): g.nz() for _ in range(4)}
        e = {(g.i(-4, 0), g.i(0, 4), g.small(3), -1, -1): g.nz() for _ in range(4)}
        gs.append([load(0, canon(d)), op("pderx", d=1, a=0), load(0, canon(e)), op("pdery", d=1, a=0)])
    return {"poly": groups(gs, 90)}


def C11(g, big):
    gs = []
    for _ in range(140 * big):
        f = g.poly(g.i(0, 9), "q", g.pick([4, 8]), g.pick([0, 0.4, 1]))
        qs = [m[2] for m, _ in f] or [0]
        ev = [load(0, f)]
        for n in g.shuffle(set([g.pick(qs), g.pick(qs) - 1, max(qs), min(qs), min(qs) - 1, max(qs) + 1, 0, -1, 1]))[:4]:
            ev += [op("pcopy", d=1, a=0), op("pomit", d=1, n=n), op("pomit", d=1, n=n)]
            ev += [op("pqcoef", d=2, a=0, n=n)]
        ev += [op("pqcoef", d=2, a=0, n=k) for k in g.shuffle(range(min(qs), max(qs) + 1))[:4]]
        gs.append(ev)
    for _ in range(12 * big):                                 # every order from below the first to above the last exponent
        f = g.poly(g.i(1, 14), "q", g.pick([4, 9]), g.pick([0, 0.4, 1]))
        qs = [m[2] for m, _ in f] or [0]
        lo, hi = max(min(qs) - 2, -30), min(max(qs) + 2, 30)
        ev = [load(0, f)]
        for n in range(lo, hi + 1):
            ev += [op("pcopy", d=1, a=0), op("pomit", d=1, n=n)]
        ev += [op("pomit", d=0, n=n) for n in g.shuffle(range(lo, hi + 1))[:3]]      # one after the other
        gs.append(ev)
    for n in XE:                                              # orders and exponents of every size
        qs = sorted({g.pick(XE) for _ in range(4)} | {n, max(-2**31 + 1, n - 1), min(2**31 - 1, n + 1)})
        f = canon({(0, 0, q) + (g.var() if g.chance(0.4) else NV): g.nz() for q in qs})
        gs.append([load(0, f), op("pqcoef", d=1, a=0, n=n), op("pqcoef", d=1, a=0, n=g.pick(qs)), op("pqcoef", d=1, a=0, n=g.pick(XE)), op("pcopy", d=1, a=0), op("pomit", d=1, n=n),
                   op("pcopy", d=1, a=0), op("pomit", d=1, n=g.pick(XE))])
        if n >= 0:                                            # indices of unknowns
            vs = [(n, g.pick(XE)), (g.pick(XE), n), (n, n), g.var()]
            f = canon({(0, 0, 0) + tuple(abs(i) for i in v): g.nz() for v in vs} | {ONE: g.nz()})
            h = canon({(0, 0, g.i(-1, 1)) + tuple(abs(i) for i in v): g.nz() for v in vs} | {(0, 0, g.i(-1, 1), -1, -1): g.nz()})
            gs.append([load(0, f)] + [op("pvarcoef", a=0, x=[abs(i) for i in v]) for v in vs + [(n, 0), (0, n)]] + [load(1, h)] + [op("pqcoef", d=2, a=1, n=k) for k in (-1, 0, 1)])
    for n in (20, 40, 80, 200):                               # long series
        f = canon({(0, 0, k - n // 4) + (g.var() if g.chance(0.1) else NV): g.nz() for k in range(n)})
        ev = [load(0, f)] + [op("pqcoef", d=1, a=0, n=k - n // 4) for k in (0, 1, n // 4, n - 1, n, g.i(0, n))]
        ev += [x for k in (n - 1, n // 2, 10, 0, -1, -n) for x in (op("pcopy", d=1, a=0), op("pomit", d=1, n=k))]
        gs.append(ev)
    for n in list(range(0, 20)) + [31, 32, 33]:               # every power of short series at several orders
        for f in (canon({ONE: 1, (0, 0, 1, -1, -1): g.pick([1, -1, 2])}), canon({(0, 0, 1, -1, -1): 1, (0, 0, g.i(2, 4), -1, -1): g.pick([1, -3])}), canon({(0, 0, g.i(0, 2), -1, -1): g.pick([1, -1, 2])}),
                  canon({ONE: g.pick([2, -1]), (0, 0, 2, -1, -1): g.nz(), (0, 0, 3, -1, -1): g.small(9) or 1})):
            for k in {0, n - 1, n, n + 1, g.i(0, 2 * n + 2)}:
                if k >= 0:
                    gs.append([load(0, f), op("ppowq", d=1, a=0, n=n, k=k)])
    for _ in range(70 * big):
        f = g.poly(g.i(0, 5), "qn", 4, 0, lambda: g.small(9) or 1)
        if g.chance(0.5):
            f = padd(f, canon({ONE: 1}))
        n = g.i(0, 6)
        ev = [load(0, f)]
        for k in g.shuffle(range(0, 15))[:3]:
            ev += [op("ppowq", d=1, a=0, n=n, k=k), op("ppow", d=2, a=0, n=n, v=0), op("pomit", d=2, n=k), op("peq", a=1, b=2)]
        gs.append(ev)
    for n, k in [(7, 10), (8, 20), (12, 9), (15, 5), (16, 16), (24, 6), (24, 30), (31, 4), (1, 0), (0, 0), (2, 0)]:
        gs.append([load(0, canon({ONE: 1, (0, 0, g.i(1, 2), -1, -1): g.pick([-1, 1, 3])})), op("ppowq", d=1, a=0, n=n, k=k)])
    for _ in range(60 * big):                                 # linear forms in unknowns
        vs = [g.var() for _ in range(g.i(1, 6))]
        f = canon({(0, 0, 0) + v: g.nz() for v in vs} | ({ONE: g.nz()} if g.chance(0.6) else {}))
        ev = [load(0, f)]
        for v in vs + [(vs[0][1], vs[0][0]), g.var()]:
            ev.append(op("pvarcoef", a=0, x=list(v)))
        ev += [op("pvarcoef", a=0, x=[-1, -1])]
        gs.append(ev)
    for _ in range(30 * big):                                 # q-series with unknown coefficients: q^k then c_i_j
        d = {}
        for _ in range(g.i(1, 12)):
            d[(0, 0, g.i(-4, 4)) + (g.var() if g.chance(0.8) else NV)] = g.nz()
        ks = sorted({m[2] for m in d})
        ev = [load(0, canon(d))]
        for k in ks:
            ev += [op("pqcoef", d=1, a=0, n=k)]
            for m in list(d):
                if m[2] == k and m[3] != -1:
                    ev.append(op("pvarcoef", a=1, x=list(m[3:])))
        gs.append(ev)
    return {"poly": groups(gs, 90)}


def C12(g, big):
    ev, gs = [], []
    E = [-2, -1, 0, 1, 2]
    U = [(-1, -1), (0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (10, 2), (2, 10)]

    def m():
        k = g.i(0, 3)
        if k <= 1:
            return [g.pick(E), g.pick(E), g.pick(E), *g.pick(U)]
        if k == 2:
            return [g.pick(E + [255, 256, 10**9, -10**9]) for _ in range(3)] + list(g.pick(U))
        return [0, 0, 0, *g.var()]
    I = [0, 1, 2, 3, 9, 10, 11, 19, 21, 99, 100, 101, 255, 256, 999, 1000, 1001, 9999, 10000, 65535, 65536, 65537, 10**6, 2**31 - 2, 2**31 - 1]
    vs = [(i, j) for i in I for j in I]
    for a in I:                                               # unknowns: indices around every boundary, lexicographic by the pair
        for b in I:
            for c, d in [(a, b), (b, a)] + [(g.pick(I), g.pick(I)) for _ in range(max(1, big // 2))]:
                ev.append(op("vcmp", x=[a, b], y=[c, d]))
    for _ in range(100 * big):
        a, b = g.pick(vs), g.pick(vs)
        ev += [op("vcmp", x=list(a), y=list(b)), op("mcmp", x=[0, 0, 0, *a], y=[0, 0, 0, *b])]
        ev.append(op("mcmp", x=[0, 0, 1, *a], y=[0, 0, 1, *g.pick([(-1, -1), (a[0], b[1]), (b[0], a[1])])]))
    for a in XE:                                              # exponents around every boundary, each of the three positions
        for b in XE if big > 8 else g.shuffle(XE)[:14]:
            k = g.i(0, 2)
            x, y = [0, 0, 0, -1, -1], [0, 0, 0, -1, -1]
            for i in range(k):
                x[i] = y[i] = g.pick(XE)
            x[k], y[k] = a, b
            for i in range(k + 1, 3):
                x[i], y[i] = g.pick(XE), g.pick(XE)
            if g.chance(0.3):
                x[3:], y[3:] = g.pick(vs), g.pick(vs)
            ev.append(op("mcmp", x=x, y=y))
    for x in itertools.product((-1, 0, 1), (-1, 0, 1), (-1, 0, 1), ((-1, -1), (0, 0), (0, 1), (1, 0))):
        for _ in range(big):
            y = [g.i(-1, 1), g.i(-1, 1), g.i(-1, 1), *g.pick(U)]
            ev.append(op("mcmp", x=[*x[:3], *x[3]], y=y))
    for n in (15, 30, 60, 120):                               # long polynomials with close exponents
        f = g.poly(n, g.pick(["any", "lau", "xy"]), 3, 0.6)
        gs.append([op("pload", d=0, x=g.shuffle(f)), op("plead", d=0, a=0), op("phas", a=0)])
        f = canon({(0, 0, 0) + g.pick(vs): 1 for _ in range(n)})
        gs.append([op("pload", d=0, x=g.shuffle(f)), op("plead", d=0, a=0), op("phas", a=0)])
        f = canon({tuple(g.pick(XE) for _ in range(3)) + (g.pick(vs) if g.chance(0.5) else NV): 1 for _ in range(n)})
        gs.append([op("pload", d=0, x=g.shuffle(f)), op("plead", d=0, a=0), op("phas", a=0)])
    for _ in range(200 * big):
        a = m()
        b = list(a)
        for _ in range(g.i(0, 2)):
            k = g.i(0, 3)
            if k < 3:
                b[k] = g.pick(E + [10**9, -10**9])
            else:
                b[3:] = g.pick(U)
        if g.chance(0.3):
            b = m()
        ev.append(op("mcmp", x=a, y=b))
        if g.chance(0.5):
            ev.append(op("mcmp", x=b, y=a))
    for _ in range(60 * big):
        def v():
            return g.pick([[*g.pick(U)], [g.i(0, 12), g.i(0, 12)], list(g.var()), [g.i(-3, 9), g.i(-3, 9), 1], [-1, -1]])
        a, b = v(), v()
        if g.chance(0.2):
            b = a
        ev += [op("vcmp", x=a, y=b), op("vcmp", x=b, y=a)]
    for _ in range(160 * big):
        f = g.poly(g.i(0, 9), g.pick(["any", "lau", "xy", "q", "x"]), g.pick([2, 5]), g.pick([0, 0.5]))
        sh = g.shuffle(f)                                      # insertion order must not matter
        k = [op("pload", d=0, x=sh), op("plead", d=0, a=0), op("phas", a=0), op("topol", d=1, a=0), op("psub", d=2, a=0, b=1, v=0), op("plead", d=1, a=2)]
        if not any(t[0][1] or t[0][2] for t in f):
            k.append(op("pdeg", a=0))
        u = g.upoly(g.pick([None, 0, 1, 3, 7]))
        k += [load(3, g.shuffle(u)), op("pdeg", a=3), op("plead", d=2, a=3), op("tget", a=2), op("thas", a=2)]
        k += [tload(3, m(), g.nz()), op("tget", a=3), op("thas", a=3), op("tsame", a=3, b=0), op("tsame", a=0, b=0), op("teq", a=0, b=0), op("teq", a=0, b=3)]
        gs.append(k)
    for _ in range(80 * big):                                 # terms with the same / a slightly different monomial
        a = m()
        b = list(a)
        if g.chance(0.6):
            b[g.i(0, 2)] += 1
        if g.chance(0.3):
            b[3:] = g.pick(U)
        c = g.nz()
        gs.append([tload(0, a, c), tload(1, b, g.pick([c, c, -c, c + 1])), op("tsame", a=0, b=1), op("teq", a=0, b=1), op("tsame", a=1, b=0)])
    return {"poly": chunks(ev, 120) + groups(gs, 100)}


def C13(g, big):
    from curve import printing
    gs = []
    C = [1, -1, 2, -2, 10, -10, 10000, 10001, -9999, 100000000, 12345678901234567890, -(10**40), 10**40 + 7]
    for _ in range(220 * big):
        kind = g.pick(["any", "lau", "xy", "q", "x", "y"])
        f = g.poly(g.i(0, 6), kind, g.pick([2, 4, 12]), g.pick([0, 0.5]), lambda: g.pick(C) if g.chance(0.8) else g.nz())
        ev = [op("pload", d=0, x=g.shuffle(f)), op("pstr", a=0)]
        t = g.mono(kind, 3, 0.4)
        ev += [tload(0, t, g.pick(C)), op("tstr", a=0)]
        gs.append(ev)
    for e in [(-2), -1, 0, 1, 2, 10, -10]:                    # each shape of each part
        for k in range(3):
            for c in (1, -1, 3, -4):
                m = [0, 0, 0, -1, -1]
                m[k] = e
                n = list(m)
                n[3:] = [1, 12]
                gs.append([tload(0, m, c), op("tstr", a=0), op("topol", d=0, a=0), op("pstr", a=0), tload(1, n, c), op("tstr", a=1), op("topol", d=0, a=1), op("pstr", a=0)])
    for c in (1, -1, 2, -2):                                  # every small shape
        for x, y, q in itertools.product((-1, 0, 1, 2), repeat=3):
            for v in (NV, (1, 2)):
                t = (x, y, q) + v
                ev = [tload(0, t, c), op("tstr", a=0)]
                f = canon({t: c, g.pick([ONE, g.mono("any", 3)]): g.pick(C)})
                gs.append(ev + [load(0, canon({t: c})), op("pstr", a=0), load(0, f), op("pstr", a=0)])
    for k in range(1, 80):                                    # every number of decimal digits
        v = g.pick([1, -1]) * g.pick([10**k, 10**k - 1, 10**(k - 1) * 5, g.r.randrange(10**(k - 1), 10**k)])
        gs.append([tload(0, g.mono("any", 2), v), op("tstr", a=0), load(0, canon({ONE: v, X(1): -v, g.mono("any", 2): v})), op("pstr", a=0)])
    for e in XE:                                              # each size of exponent, alone and with the other parts, each shape of coefficient
        for k in range(3):
            m = [0, 0, 0, -1, -1]
            m[k] = e
            n = [g.pick([0, 1, -1, 2, g.pick(XE)]) for _ in range(3)] + list(g.pick([(1, 2), g.var()]))
            n[k] = e
            o = m[:3] + [1, 2]
            c = g.shuffle([1, -1, 7, -7])
            gs.append([x for t, s in zip((m, n, o, o), c) for x in (tload(0, t, s), op("tstr", a=0))] + [load(0, canon({tuple(m): g.pick([1, -1, 5]), ONE: 1, tuple(n): g.pick([1, -1, 5])})), op("pstr", a=0)])
        for c in (1, -1, 5):
            m = (0, 0, e) + g.pick([(1, 2), (0, 0), (10, 11)])
            gs.append([tload(0, m, c), op("tstr", a=0), load(0, canon({m: c, ONE: g.pick([1, -1])})), op("pstr", a=0)])
    for n in (20, 50, 100):
        gs.append([op("pload", d=0, x=g.shuffle(g.poly(n, "any", 3, 0.4, lambda: g.pick([1, -1, 2, -3, 10])))), op("pstr", a=0)])
    I = [0, 1, 2, 9, 10, 11, 99, 100, 101, 255, 256, 999, 1000, 65536, 2**31 - 1]
    vs = [op("vstr", x=[a, b]) for a in I for b in I] + [op("vstr", x=list(g.var())) for _ in range(20)] + [op("vstr", x=[g.i(-2, 5), g.i(-2, 5), 1]) for _ in range(4)] + [op("vstr", x=[-1, -1])]
    zero = [tload(0, ONE, 0), op("tstr", a=0), op("tnew", d=1), op("tstr", a=1), op("tone", d=1), op("tstr", a=1), op("pone", d=0), op("pstr", a=0),
            op("pzero", d=0), op("pstr", a=0), load(1, canon({ONE: -1})), op("pstr", a=1), op("pneg", d=1, a=1, v=0), op("pstr", a=1)]
    return {"poly": groups(gs, 100) + [vs, zero], "curve": printing(g, big)}


def C30(g, big):
    out = []
    for _ in range(45 * big):
        ev = [op("bnew")] if g.chance(0.8) else []
        for _ in range(g.i(4, 45)):
            k = g.i(0, 12)
            if k == 0:
                v = g.i(0, 2)
                ev.append(op("bcoef", n=g.pick([0, 1, -1, g.small(99), 2**31 - 1, -2**31 + 1]), v=v))
            elif k == 1:
                ev.append(op("bcoefz", x=Z(g.z()), v=g.i(0, 1)) if g.chance(0.6) else
                          op("bcoefz", x=Z(g.pick([-2**31, -2**31, 2**31 - 1, -2**31 + 1, -2**16, 2**16, -2**30, 2**24 + 1, g.r.randrange(-2**31, 2**31)])), v=2))
            elif k in (2, 3, 4):
                ev.append(op(["bx", "by", "bq"][k - 2], n=g.pick([0, 1, -1, g.small(9), 1000, -1000, 2**31 - 1, -2**31 + 1, -2**31])))
            elif k == 5:
                ev.append(op("bvar", x=g.pick([list(g.var()), [-1, -1], [g.i(0, 3), g.i(0, 3), 1]])))
            elif k in (6, 7):
                ev.append(op("bvarij", x=g.pick([list(g.var()), list(g.var()), [0, 0], [-1, 2], [2, -1], [-1, -1], [-5, 0], [0, -2**31 + 1]])))
            elif k == 8:
                ev.append(op("bbuild", d=g.i(0, 3)))
            elif k == 9:
                ev.append(op("bpol", d=g.i(0, 7)))
            elif k == 10:
                ev.append(op("bclone"))
            elif k == 11:
                d = g.i(0, 3)
                ev += [op("bbuild", d=d), op("topol", d=g.i(0, 7), a=d), op("tget", a=d)]
            elif g.chance(0.3):
                ev.append(op("bnew"))
        ev += [op("bbuild", d=0), op("bbuild", d=1), op("teq", a=0, b=1)]
        out.append(ev)
    return {"poly": out}
