"""Scripts for curves and points (kind "curve": checked by TraceCurve).  All numbers are limbs."""
from common import *


def disc(a, b, p):
    return (4 * a**3 + 27 * b * b) % p


def ends(a, b, p, x):
    return (x * x * x + a * x + b) % p


def pts(a, b, p):
    return [(x, y) for x in range(p) for y in range(p) if (y * y - ends(a, b, p, x)) % p == 0]


def enew(a, b, p, raw=False):
    return {"op": "eraw" if raw else "enew", "ca": Z(a), "cb": Z(b), "m": Z(p), "big": 1}


def eload(d, x, y, z=1):
    return {"op": "eload", "d": d, "x": [Z(x), Z(y), Z(z)]}


def sqrt_mod(v, p):
    """a square root modulo a prime p = 3 mod 4 (or None)"""
    r = pow(v, (p + 1) // 4, p)
    return r if r * r % p == v % p else None


P34 = [2**31 - 1, 2**61 - 1, 2**89 - 1, 2**127 - 1, 2**256 - 2**32 - 977, 4294967291, 1000003, 65543, 10007]   # = 3 mod 4


def rand_point(g, a, b, p):
    while True:
        x = g.r.randrange(p)
        y = sqrt_mod(ends(a, b, p, x), p)
        if y is not None:
            return x, (y if g.chance(0.5) else -y % p)


WORD_PRIMES = [251, 257, 65521, 65537, 2147483629, 2**31 - 1, 2147483659, 4294967291, 4294967311, 9223372036854775783, 9223372036854775837,
               18446744073709551557, 18446744073709551629, 2**61 - 1, 2**89 - 1, 2**127 - 1, 2**128 - 159, 2**255 - 19, 2**256 - 2**32 - 977,
               2**521 - 1]


def cadd(C, P, Q):
    """the group law, for the choice of operands only"""
    a, p = C
    if P is None or Q is None:
        return P or Q
    if P[0] == Q[0] and (P[1] != Q[1] or P[1] == 0):
        return None
    m = (3 * P[0]**2 + a) * pow(2 * P[1], -1, p) if P == Q else (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p)
    x = (m * m - P[0] - Q[0]) % p
    return x, (m * (P[0] - x) - P[1]) % p


def cmul(C, P, n):
    R = None
    if n < 0:
        P, n = P and (P[0], -P[1] % C[1]), -n
    while n:
        if n & 1:
            R = cadd(C, R, P)
        P = cadd(C, P, P)
        n >>= 1
    return R


def through(g, p):
    """a non-singular curve with a point on it, any prime"""
    while True:
        x, y, a = g.r.randrange(p), g.pick([g.r.randrange(p), g.r.randrange(p), 0, 1, p - 1]), g.pick([g.r.randrange(p), g.r.randrange(p), 0, 1, p - 1, p - 3])
        b = (y * y - x**3 - a * x) % p
        if disc(a, b, p):
            return a, b, (x, y)


def rep(g, v, p):
    """an unreduced representative, sometimes"""
    return v if g.chance(0.5) else v + p * g.pick([1, -1, -2, 3, g.small(10**6)])


def curves(g, n, ps, singular=False, unred=0.3):
    out = []
    while len(out) < n:
        p = g.pick(ps)
        a, b = g.r.randrange(p), g.r.randrange(p)
        if g.chance(0.15):
            a = 0
        elif g.chance(0.15):
            b = 0
        if not singular and disc(a, b, p) == 0:
            continue
        if g.chance(unred):
            a, b = rep(g, a, p), rep(g, b, p)
        out.append((a, b, p))
    return out


def all_curves(p, singular=False):
    return [(a, b, p) for a in range(p) for b in range(p) if singular or disc(a, b, p)]


def C17(g, big):
    gs = []
    for p in (3, 5, 7, 11, 13):
        for a, b, p in all_curves(p, True):
            gs.append([enew(a, b, p), op("ecreate")])
            if p <= 5:
                gs.append([enew(a - p, b + 2 * p, p), op("ecreate"), enew(a + 7 * p, b - p * 10**10, p, True), op("ecreate"), op("eons", lo=-p, hi=2 * p)])
    for p in [67, 83, 97, 127, 131, 137, 251, 257, 313, 389, 509, 521] + ([769, 1021, 1031, 1511, 2053] if big > 8 else []):
        for a, b, p in curves(g, 1 if big <= 8 else 4, [p], True) + [(0, g.i(1, p), p), (g.i(1, p), 0, p)]:
            gs.append([enew(a, b, p), op("ecreate")])
    for a, b, p in curves(g, 40 * big, SMALL_PRIMES[4:18], True, 0.7):
        gs.append([enew(a, b, p), op("ecreate"), op("ecreate")])
    for p in (97, 101, 127, 131):
        for a, b, p in curves(g, 1, [p], True):
            gs.append([enew(a, b, p)])
    for _ in range(30 * big):                                 # raw construction, then enumeration, then again
        a, b, p = curves(g, 1, SMALL_PRIMES[1:10], True)[0]
        gs.append([enew(a, b, p, True), op("ecreate"), op("ecreate")])
    for _ in range(30 * big):                                 # membership over a grid beyond [0, p)
        a, b, p = curves(g, 1, SMALL_PRIMES[1:9], True, 0.5)[0]
        lo = g.pick([0, -p, -3, -2 * p + 1])
        gs.append([enew(a, b, p, g.chance(0.5)), op("eons", lo=lo, hi=min(lo + 2 * p, lo + 24))])
    for _ in range(20 * big):                                 # points of any big field, all representatives
        p = g.pick(WORD_PRIMES)
        a, b, (x, y) = through(g, p)
        ev = [enew(rep(g, a, p), rep(g, b, p), p, True)]
        for X, Y in [(x, y), (x, -y), (x + p, y), (x, y - p), (x - p * g.r.getrandbits(70), y + p), (x, y + 1), (x + 1, y), (x, 2 * y), (-x, y), (y, x), (0, 0), (x, 0), (0, y)]:
            ev += [eload(1, X, Y), op("eon", a=1)]
        ev += [eload(1, x, y + 1, 0), op("eon", a=1), op("eisinf", a=1), op("ecanon", d=2, a=1)]
        gs.append(ev)
    for _ in range(40 * big):                                 # membership of single points, big fields too
        big_p = g.chance(0.5)
        p = g.pick(P34) if big_p else g.pick(SMALL_PRIMES[1:12])
        a, b = g.residue(p), g.residue(p)
        ev = [enew(a, b, p, True), op("einf", d=0), op("eon", a=0), op("eisinf", a=0)]
        if p % 4 == 3 and p > 50:
            x, y = rand_point(g, a, b, p)
            ev += [eload(1, rep(g, x, p), rep(g, y, p)), op("eon", a=1), eload(2, x, (y + 1) % p), op("eon", a=2),
                   eload(3, (x + p), -y), op("eon", a=3), op("eisinf", a=3)]
        for _ in range(4):
            ev += [eload(4, g.z(), g.z()), op("eon", a=4), op("eisinf", a=4), op("ecanon", d=5, a=4), op("eon", a=5)]
        gs.append(ev)
    def composite(n, f):
        return {**enew(g.z(), g.z(), n), "f": Z(f)}
    ev = [composite(n, 0) for n in (1, 0, -1, -7)]
    for n in range(4, 700):                                   # moduli that are not prime
        f = next((d for d in range(2, n) if n % d == 0), None)
        if f:
            ev.append(composite(n, f))
    for n, f in [(561, 3), (1105, 5), (1729, 7), (2047, 23), (2465, 5), (3277, 29), (8321, 53), (29341, 13), (62745, 3), (162401, 17), (294409, 37), (410041, 41), (314821, 13), (252601, 41), (3215031751, 151), (2152302898747, 6763),
                 (3474749660383, 1303), (341550071728321, 10670053)]:
        ev.append(composite(n, f))
    for _ in range(30 * big):
        p, q = g.prime_of(g.i(2, 17)), g.prime_of(g.i(2, 46))
        ev += [composite(p * q, p)] + ([composite(p * p, p)] if p > 3 else []) + ([composite(p**3, p)] if p < 2**16 else [])
    a, b, p = curves(g, 1, [11], True)[0]
    gs += [[enew(a, b, p)] + c + [op("ecreate")] for c in chunks(ev, 40)]
    return {"curve": groups(gs, 40)}


def C18(g, big):
    gs = []
    for p in (3, 5, 7, 11, 13):
        for a, b, p in all_curves(p):
            gs.append([enew(a, b, p), op("etable")])
            if p <= 5:
                gs.append([enew(a - p, b + 2 * p, p), op("etable")])
    for a, b, p in curves(g, 5 * big, SMALL_PRIMES[4:14]) + curves(g, 1 + big // 8, [89, 97, 101, 131]):
        gs.append([enew(a, b, p), op("etable")])
    for _ in range(8 * big):                                  # one curve over the integers, two points on it, several fields in turn; several curves through a point
        x, y, u, v = g.small(9), g.small(9), g.small(9), g.small(9)
        if x == u:
            u += 1
        while (y * y - v * v - x**3 + u**3) % (x - u):
            y += 1
            v += g.pick([0, 1])
        a = (y * y - v * v - x**3 + u**3) // (x - u)
        b = y * y - x**3 - a * x
        ps = [q for q in g.shuffle(SMALL_PRIMES[2:20])[:3] + [g.prime_of(g.i(8, 70)), g.pick(WORD_PRIMES)] if disc(a, b, q)]
        ev = []
        for q in ps + ps[:2]:
            ev += [enew(a, b, q, True), eload(0, x, y), eload(1, u, v), op("eplus", d=2, a=0, b=1), op("eplus", d=3, a=2, b=0), op("eplus", d=4, a=0, b=0), op("emul", d=5, a=0, n=Z(g.i(2, 9)))]
        p = g.prime_of(g.i(8, 70))
        for c in g.shuffle(range(0, 9))[:4]:
            if disc(c, y * y - x**3 - c * x, p):
                ev += [enew(c, y * y - x**3 - c * x, p, True), eload(0, x, y), op("eplus", d=4, a=0, b=0), op("eplus", d=3, a=4, b=0), op("emul", d=5, a=0, n=Z(5))]
        gs.append(ev)
    for i in range(20 * big):                                 # chosen slopes and results
        p = g.prime_of(g.i(5, 16)) if i % 3 == 0 else g.prime_of(g.i(17, 140)) if i % 3 == 1 else g.pick(WORD_PRIMES)
        S = [0, 1, -1, 2, -2, 3, p // 2, p // 2 + 1, 2**g.i(0, p.bit_length() - 1), -2**g.i(0, p.bit_length() - 1), g.i(-2000, 2000), g.r.randrange(p)]
        ev = []
        for _ in range(6):
            m, x1, y1, x3 = g.pick(S), g.pick(S), g.pick(S), g.pick(S)
            if g.chance(0.5):                                 # tangent
                if y1 % p == 0:
                    continue
                x2, y2, a = x1, y1, 2 * y1 * m - 3 * x1 * x1
            else:
                x2 = (m * m - x1 - x3) % p
                if (x2 - x1) % p == 0:
                    continue
                y2 = y1 + m * (x2 - x1)
                a = ((y2 * y2 - y1 * y1) * pow(x2 - x1, -1, p) - (x1 * x1 + x1 * x2 + x2 * x2)) % p
            b = y1 * y1 - x1**3 - a * x1
            if disc(a, b, p) == 0:
                continue
            ev += [enew(rep(g, a % p, p), rep(g, b % p, p), p, True), eload(0, x1 % p, y1 % p), eload(1, rep(g, x2 % p, p), rep(g, y2 % p, p)),
                   op("eplus", d=2, a=0, b=1), op("eplus", d=2, a=1, b=0), op("eon", a=2), op("eneg", d=3, a=1), op("eplus", d=3, a=2, b=3), op("eplus", d=4, a=2, b=2),
                   op("emul", d=5, a=0, n=Z(g.pick([2, 3, 4, 5, -2, -3])))]
        if ev:
            gs.append(ev)
    for i in range(20 * big):                                 # operands in special position, any field
        p = g.pick(WORD_PRIMES + SMALL_PRIMES[2:]) if i % 3 else g.prime_of(g.i(3, 140))
        a, b, P = through(g, p)
        C = (a, p)
        ks = [1, -1, 2, -2, 3, g.i(-50, 50), g.r.getrandbits(60)]
        M = [R for R in (cmul(C, P, k) for k in ks) if R]
        ev = [enew(rep(g, a, p), rep(g, b, p), p, True)]
        for _ in range(8):
            R, S = g.pick(M), g.pick(M)
            ev += [eload(0, rep(g, R[0], p), rep(g, R[1], p)), eload(1, rep(g, S[0], p), rep(g, S[1], p)), op("eplus", d=2, a=0, b=1), op("eplus", d=3, a=2, b=1),
                   op("eplus", d=4, a=0, b=2), op("eneg", d=5, a=2), op("eplus", d=5, a=5, b=2), op("eplus", d=5, a=0, b=0)]
        off = [eload(1, P[0], P[1] + g.i(1, min(p - 1, 5)) if p < 12 else P[1] + 1), eload(2, *P)]
        if P[1] * 2 % p != p - 1 and p > 12:
            ev += off + [op("eplus", d=3, a=1, b=2), op("eplus", d=3, a=2, b=1), op("eplus", d=3, a=1, b=1), op("einf", d=4), op("eplus", d=3, a=1, b=4), op("eplus", d=3, a=4, b=1)]
        gs.append(ev)
    for _ in range(25 * big):                                 # representatives, infinity, off the curve
        a, b, p = curves(g, 1, SMALL_PRIMES[1:12], False, 0.5)[0]
        P = pts(a, b, p)
        ev = [enew(a, b, p, True)]
        for _ in range(4):
            if P:
                q, r = g.pick(P), g.pick(P)
                if g.chance(0.2):
                    r = q
                if g.chance(0.2):
                    r = (q[0], -q[1] % p)
                ev += [eload(0, rep(g, q[0], p), rep(g, q[1], p)), eload(1, rep(g, r[0], p), rep(g, r[1], p)),
                       op("eplus", d=2, a=0, b=1), op("eplus", d=2, a=1, b=0), op("eneg", d=3, a=0), op("eplus", d=4, a=3, b=0), op("eisinf", a=4),
                       op("eplus", d=4, a=2, b=3), op("einf", d=5), op("eplus", d=4, a=0, b=5), op("eplus", d=4, a=5, b=0), op("eplus", d=4, a=5, b=5), op("eneg", d=4, a=5)]
            x, y = g.r.randrange(p), g.r.randrange(p)
            if (y * y - ends(a, b, p, x)) % p:
                ev += [eload(3, rep(g, x, p), rep(g, y, p)), op("einf", d=4), op("eplus", d=2, a=3, b=4), op("eplus", d=2, a=4, b=3), op("eplus", d=2, a=3, b=3)]
                if P:
                    q = g.pick(P)
                    ev += [eload(1, *q), op("eplus", d=2, a=1, b=3), op("eplus", d=2, a=3, b=1), op("ecanon", d=2, a=3)]
        gs.append(ev)
    for _ in range(20 * big):                                 # big fields: sums, associativity, doubling, unreduced
        p = g.pick(P34)
        a, b = g.residue(p), g.residue(p)
        ev = [enew(a, b, p, True)]
        R = [rand_point(g, a, b, p) for _ in range(3)]
        for i, (x, y) in enumerate(R):
            ev.append(eload(i, rep(g, x, p), rep(g, y, p)))
        ev += [op("eplus", d=3, a=0, b=1), op("eplus", d=3, a=3, b=2), op("eplus", d=4, a=1, b=2), op("eplus", d=4, a=0, b=4),
               op("eplus", d=5, a=0, b=0), op("eneg", d=5, a=0), op("eplus", d=5, a=5, b=0), op("eplus", d=3, a=3, b=3), op("ecanon", d=3, a=0)]
        x, y = R[0]
        ev += [eload(1, x, (y + 1) % p), op("eplus", d=2, a=0, b=1), op("eplus", d=2, a=1, b=0)]
        gs.append(ev)
    for _ in range(10 * big):                                 # two-torsion in big fields
        p = g.pick(P34)
        e1, e2 = g.r.randrange(p), g.r.randrange(p)           # y^2 = (x-e1)(x-e2)(x+e1+e2)
        a, b = e1 * e2 - (e1 + e2)**2, e1 * e2 * (e1 + e2)
        if disc(a, b, p) == 0:
            continue
        ev = [enew(a, b, p, True), eload(0, e1, 0), eload(1, e2, g.pick([0, p, -p])), op("eplus", d=2, a=0, b=1), op("eplus", d=3, a=0, b=0), op("eisinf", a=3),
              op("eplus", d=3, a=1, b=1), op("eneg", d=3, a=0), op("eplus", d=3, a=2, b=1), op("eplus", d=3, a=3, b=3)]
        gs.append(ev)
    return {"curve": groups(gs, 40)}


def C19(g, big):
    gs = []
    for p in (3, 5, 7, 11):
        for a, b, p in all_curves(p) if p < 11 or big > 8 else g.shuffle(all_curves(p))[:40]:
            n = len(pts(a, b, p)) + 1
            gs.append([enew(a, b, p), op("eorders"), op("emultable", lo=-n - 2, hi=2 * n + 2)] +
                      [op("edivp", n=Z(k)) for k in g.shuffle(list(range(-3, 13)) + [n, 2 * n, -n])[:5]])
    for _ in range(6 * big):                                  # every shape of multiplier, any field
        p = g.pick(WORD_PRIMES + SMALL_PRIMES[2:]) if g.chance(0.6) else g.prime_of(g.i(3, 140))
        a, b, P = through(g, p)
        ks = g.shuffle([2**k + d for k in (3, 4, 5, 8, 16, 31, 32, 33, 63, 64, 65, 128, 256) for d in (-1, 0, 1)] + list(range(0, 40)) +
                       [int("10" * k, 2) for k in (3, 8, 20)] + [g.r.getrandbits(300), p, p + 1, p - 1])[:9]
        if p < 10**6:
            # the multiples that come back to where they started
            o = next(k for k in range(1, 3 * p) if cmul((a, p), P, k) is None) if p < 200 else 0
            ks += [o, o - 1, o + 1, 2 * o, o // 2, (o + 1) // 2, o * g.i(2, 10**9)] if o else []
        ev = [enew(rep(g, a, p), rep(g, b, p), p, True), eload(0, rep(g, P[0], p), rep(g, P[1], p))]
        for k in ks:
            ev += [op("emul", d=1, a=0, n=Z(k)), op("emul", d=2, a=0, n=Z(-k)), op("eplus", d=3, a=1, b=2), op("emul", d=3, a=1, n=Z(g.pick(ks)))]
        gs.append(ev)
    for a, b, p in curves(g, 6 * big, SMALL_PRIMES[4:18]):
        n = len(pts(a, b, p)) + 1
        gs.append([enew(a, b, p), op("eorders"), op("emultable", lo=-6, hi=n + 3)] + [op("edivp", n=Z(k)) for k in range(-2, 13)] +
                  [op("edivp", n=Z(k)) for k in (0, n, 2 * n, n + 1, 2**70, n * 10**30)])
    for _ in range(15 * big):                                 # single points, unreduced, large multipliers
        a, b, p = curves(g, 1, SMALL_PRIMES[1:14], False, 0.5)[0]
        P = pts(a, b, p)
        ev = [enew(a, b, p, True)]
        for _ in range(3):
            if P:
                q = g.pick(P)
                ev += [eload(0, rep(g, q[0], p), rep(g, q[1], p)), op("eorder", a=0)]
            else:
                ev += [op("einf", d=0), op("eorder", a=0)]
            m, n = g.z(), g.z()
            ev += [op("emul", d=1, a=0, n=Z(m)), op("emul", d=2, a=0, n=Z(n)), op("emul", d=3, a=0, n=Z(m + n)), op("eplus", d=4, a=1, b=2),
                   op("emul", d=4, a=2, n=Z(m)), op("emul", d=5, a=0, n=Z(m * n)), op("emul", d=5, a=0, n=Z(0)), op("eorder", a=1),
                   op("einf", d=5), op("emul", d=5, a=5, n=Z(m)), op("eorder", a=5)]
        gs.append(ev)
    for _ in range(4 * big):                                  # big fields
        p = g.pick(P34)
        a, b = g.residue(p), g.residue(p)
        x, y = rand_point(g, a, b, p)
        m, n = g.z(), g.r.getrandbits(200)
        gs.append([enew(a, b, p, True), eload(0, x, y), op("emul", d=1, a=0, n=Z(m)), op("emul", d=2, a=0, n=Z(n)), op("emul", d=3, a=0, n=Z(m + n)),
                   op("eplus", d=4, a=1, b=2), op("emul", d=5, a=0, n=Z(-n)), op("eplus", d=5, a=5, b=2)] +
                  [op("emul", d=5, a=0, n=Z(k)) for k in (0, 1, -1, 2, -2, 3, 4, 5, 6, 7, 8, 255, 256, 257)])
    for p in (101, 113, 127, 131, 251, 257, 389, 509, 521, g.prime_of(10), g.prime_of(11)):       # longer orders
        for a, b, p in curves(g, 2 * big if p < 200 else 1 + big // 8, [p]):
            P = pts(a, b, p)
            if P:
                gs.append([enew(a, b, p, True)] + sum([[eload(0, *g.pick(P)), op("eorder", a=0)] for _ in range(4)], []))
    return {"curve": groups(gs, 30)}


def C20(g, big):
    gs = []
    for p in (5, 7, 11, 13):
        cs = all_curves(p)
        for a, b, p in cs:
            gs.append([enew(a, b, p)] + [op("eiso", n=Z(n)) for n in range(1, 9)])
    for a, b, p in curves(g, 15 * big, SMALL_PRIMES[4:14]):
        N = len(pts(a, b, p)) + 1
        gs.append([enew(a, b, p)] + [op("eiso", n=Z(n)) for n in g.shuffle(range(1, 13))[:4] + [N, g.i(1, 60), 10**20]])
    for p in (41, 43, 61, 97, 113):                           # more torsion
        for a, b, p in curves(g, max(2, big // 4), [p]):
            gs.append([enew(a, b, p)] + [op("eiso", n=Z(n)) for n in (2, 3, 4, 5, 6)])
    for p in (131, 251, 257, 313):
        for a, b, p in curves(g, 1 + big // 8, [p]):
            N = len(pts(a, b, p)) + 1
            gs.append([enew(a, b, p)] + [op("eiso", n=Z(n)) for n in (2, 3, g.i(4, 9), next((d for d in range(5, N) if N % d == 0), N), N)])
    full = [(0, 1, 5), (0, 1, 7), (1, 2, 11), (1, 3, 13), (0, 2, 17), (2, 5, 19), (1, 4, 23)]
    full += [(g.r.randrange(p), g.r.randrange(p), p) for p in SMALL_PRIMES[4:14] for _ in range(max(1, big // 4))]
    for e1, e2, p in full:                                    # full 2-torsion
        a, b = e1 * e2 - (e1 + e2)**2, e1 * e2 * (e1 + e2)
        if disc(a, b, p):
            gs.append([enew(a, b, p)] + [op("eiso", n=Z(n)) for n in (2, 4, 6, 8, 10, 12)])
    return {"curve": groups(gs, 30)}


def C21(g, big):
    gs = []
    for p in (5, 7, 11, 13, 17, 19, 23) + ((29, 31, 37) if big > 8 else ()):
        for a, b, p in all_curves(p):
            gs.append([enew(a, b, p, True), op("ej")])
    for bits in list(range(3, 70)) + ([80, 100, 128, 129, 200] if big == 1 else list(range(70, 260, 3))):       # fields of every length
        p = g.prime_of(bits)
        w = 1 << (bits - 1)
        ev = []
        for a, b in [(g.r.randrange(p), g.r.randrange(p)), (p - g.i(1, 9), p - g.i(1, 9)), (g.i(0, 9), p - g.i(1, 9)), (p - g.i(1, 9), g.i(0, 9)), (w % p, (w - 1) % p), (g.residue(p), g.residue(p))]:
            if p > 3 and disc(a, b, p):
                ev += [enew(a, b, p, True), op("ej")]
        gs.append(ev)
    for _ in range(6 * big):                                  # coefficients and fields that agree in a word, one after the other
        p, a, b = g.prime_of(g.i(66, 140)), g.r.getrandbits(63), g.r.getrandbits(63)
        q = g.prime_of(g.i(66, 140))
        ev = []
        for c, d, r in [(a, b, p), (a + 2**64, b, p), (a, b + 2**64, p), (a, b - 2**32, p), (a, b, q), (b, a, p), (-a, b, p), (a, -b, p), (a + p, b - p, p), (a + 2**31, b, q)]:
            if disc(c, d, r):
                ev += [enew(c, d, r, True), op("ej")]
        gs.append(ev)
    for _ in range(20 * big):                                 # fields with a unique cube root: chosen discriminants, numerators and invariants
        while True:
            p = g.prime_of(g.i(4, 24) if g.chance(0.5) else g.i(25, 140))
            if p % 3 == 2:
                break
        third = pow(3, -1, p - 1)
        ev = []
        for _ in range(5):
            small = g.pick([g.i(1, 32), g.i(1, 32), g.i(1, 2000), 2**g.i(0, p.bit_length() - 1), p // 2, 1728, 432, 27, 4, 6912]) * g.pick([1, 1, -1])
            b = g.pick([g.r.randrange(1, p), g.i(1, 9)])
            k = g.i(0, 2)
            c = (small - 27 * b * b) * pow(4, -1, p) if k < 2 else small * pow(6912, -1, p)      # 4 a^3 = small - 27 b^2; 1728 * 4 a^3 = small
            a = pow(c % p, third, p)
            if disc(a, b, p):
                ev += [enew(a, b, p, True), op("ej"), enew(rep(g, a, p), rep(g, b, p), p, True), op("ej")]
            j = small % p
            if j and (j - 1728) % p:
                u, c = g.r.randrange(1, p), j * pow(j - 1728, -1, p) % p
                ev += [enew(-3 * c * u**2 % p, -2 * c * u**3 % p, p, True), op("ej")]
        gs.append(ev)
    for a, b, p in curves(g, 60 * big, SMALL_PRIMES[2:] + P34 + BIG_PRIMES + WORD_PRIMES * 2, False, 0.4):
        u = g.r.randrange(1, p)
        gs.append([enew(a, b, p, True), op("ej"), enew(pow(u, 4, p) * a % p, pow(u, 6, p) * b % p, p, True), op("ej"),
                   enew(rep(g, a, p), rep(g, b, p), p, True), op("ej"), enew(a - p * g.i(1, 9), b + p * g.i(1, 9), p, True), op("ej")])
    for p in SMALL_PRIMES[2:] + BIG_PRIMES + WORD_PRIMES:                 # j = 0 and j = 1728
        u = g.r.randrange(1, p)
        for a, b in [(0, u), (u, 0), (0, -u), (-u, 0), (p, u), (u, -p)]:
            gs.append([enew(a, b, p, True), op("ej")])
    return {"curve": groups(gs, 60)}


def C22(g, big):
    n = SECP_N
    gs = []

    def mul(k, d=1):
        return op("emul", d=d, a=0, n=Z(k))
    gs.append([op("esecp"), op("eon", a=0), op("eisinf", a=0)] + [mul(k) for k in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, -1, -2, -3)])
    for ks in ([n, n - 1], [n + 1, -n], [2 * n, 2 * n - 1], [n // 2, n // 2 + 1], [2**256 - 1, 2**256], [2**255, 2**128], [-(n - 1), 1 - n]):
        gs.append([op("esecp")] + [x for k in ks for x in (mul(k), op("eon", a=1), op("eisinf", a=1))])
    for _ in range(6 * big):                                  # kG + mG = (k+m)G; dependence on k mod n
        k, m = g.r.getrandbits(g.pick([8, 64, 200, 256, 256, 256, 300, 600])), g.r.getrandbits(g.pick([8, 64, 256, 256, 400]))
        if g.chance(0.3):
            k = -k
        ev = [op("esecp"), mul(k, 1), mul(m, 2), op("eplus", d=3, a=1, b=2), mul(k + m, 4), op("eon", a=4)]
        if g.chance(0.5):
            ev.append(mul(k + n * g.pick([1, -1, 2, 5]), 5))
        ev += [op("eneg", d=5, a=1), op("eplus", d=5, a=1, b=5), op("eplus", d=5, a=1, b=1), op("emul", d=5, a=1, n=Z(g.i(2, 200)))]
        gs.append(ev)
    for k in range(1, 260) if big > 8 else sorted(set(list(range(1, 66)) + [100, 127, 128, 129, 160, 191, 192, 193, 224, 250, 254, 255, 256, 257])):
        gs.append([op("esecp"), mul(2**k), mul(2**k - 1), op("eon", a=1)])
    def words(w, n):                                          # multipliers with whole words of zeros and ones
        return sum(g.pick([0, 0, 0, 1, 2**w - 1, 2**(w - 1), g.r.getrandbits(w)]) << (w * i) for i in range(n))
    for _ in range(4 * big):
        ks = [words(w, n) for w, n in ((32, g.i(3, 8)), (32, g.i(5, 14)), (64, g.i(3, 5)), (64, g.i(3, 7)), (16, 16), (8, 32), (128, 3))]
        gs.append([op("esecp")] + [mul(k) for k in ks if k])
    for lo in (0, 32, 64, 96, 128, 192):                      # a single word among zeros
        for w in (32, 64):
            gs.append([op("esecp")] + [mul((g.r.getrandbits(w) | 1) << lo), mul((1 << g.pick([160, 200, 255, 300])) + ((g.r.getrandbits(w) | 1) << lo)),
                                       mul((2**256 - 1) ^ ((2**w - 1) << lo))])
    P = 2**256 - 2**32 - 977
    for _ in range(3 * big):                                  # any point of the curve
        x, y = rand_point(g, 0, 7, P)
        x2, y2 = rand_point(g, 0, 7, P)
        gs.append([op("esecp"), eload(1, rep(g, x, P), rep(g, y, P)), eload(2, x2, y2), op("eon", a=1), op("eplus", d=3, a=1, b=2), op("eplus", d=3, a=3, b=0),
                   op("eplus", d=4, a=2, b=0), op("eplus", d=4, a=1, b=4), op("eplus", d=5, a=1, b=1), op("emul", d=5, a=1, n=Z(g.r.getrandbits(256))),
                   eload(5, x, (y + 1) % P), op("eon", a=5)])
    return {"curve": groups(gs, 10)}


def printing(g, big):
    gs = []
    for a, b, p in curves(g, 20 * big, SMALL_PRIMES[2:14], False, 0) + all_curves(5) + all_curves(7):
        gs.append([enew(a, b, p), op("estr")] + sum([[op("edivp", n=Z(n)), op("edivstr", n=Z(n))] for n in (1, 2, g.i(3, 12))], []))
    ev = [enew(1, 1, 5)]
    for _ in range(20 * big):
        ev.append(op("eptstr", a=[Z(g.r.randrange(5)) if g.chance(0.3) else Z(abs(g.z())), Z(abs(g.z())), Z(1)]))
    ev.append(op("eptstr", a=[Z(0), Z(0), Z(1)]))
    ev.append(op("eptstr", a=[Z(0), Z(0), Z(0)]))
    ev.append(op("eptstr", a=[Z(10), Z(-3), Z(1)]))
    return groups(gs, 30) + [ev]
