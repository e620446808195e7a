"""What the generated scripts of a property exercise: a histogram of operand features per operation.
usage: coverage.py ID [op ...]   (reads nothing from the evidence; runs the generators and the library)"""
import sys, os, json, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "gen"))
import check, plans
from common import unZ

TSET = {"tload", "tneg", "ttmul", "ttdiv", "tone", "tnew", "tpow", "tpowmod", "tpowz", "tpowmodz", "tmod", "tmodeq", "tfrob", "typow", "tqpow", "tderx", "tdery", "plead", "bbuild"}
PA = {"padd", "psub", "pmul", "pdiv", "ptadd", "ptsub", "ptmul", "ptdiv", "pneg", "ppow", "psquare", "pcube", "ppowmod", "ppowz", "prem", "pmodpoly", "pgcd", "pcoprime", "pmonic",
      "pred", "predm", "pevalx", "pevaly", "pevalxy", "psubx", "psuby", "pfrob", "pypow", "pqpow", "pscalar", "pderx", "pdery", "ppowq", "pqcoef", "pvarcoef", "plead", "pdeg",
      "phas", "piszero", "pisone", "peq", "pstr", "pcopy"}
PB = {"padd", "psub", "pmul", "pdiv", "tpadd", "tpsub", "tpmul", "tpdiv", "paddeq", "psubeq", "pmuleq", "pdiveq", "pmodpoly", "pgcd", "pcoprime", "psubx", "psuby", "tsubx", "tsuby", "msubx", "msuby", "peq"}
TA = {"tpadd", "tpsub", "tpmul", "tpdiv", "ttadd", "ttsub", "ttmul", "ttdiv", "tneg", "topol", "tpow", "tpowmod", "tpowz", "tpowmodz", "tmod", "mevalxy", "mevalq", "tsubx", "tsuby", "msubx", "msuby",
      "tfrob", "typow", "tqpow", "tderx", "tdery", "thas", "tget", "tsame", "teq", "tstr"}
TB = {"ptadd", "ptsub", "ptmul", "ptdiv", "ttadd", "ttsub", "ttmul", "ttdiv", "ptaddeq", "ptdiveq", "tsame", "teq"}
PD = {"paddeq", "psubeq", "pmuleq", "pdiveq", "ptaddeq", "ptdiveq", "pmodeq", "pomit"}
TD = {"tmodeq"}


def bucket(n):
    s = "-" if n < 0 else ""
    n = abs(n)
    for lim in (0, 1, 2, 3, 4, 8, 16, 32, 64, 128, 256, 1024, 65536, 2**31, 2**32, 2**64, 2**128, 2**256):
        if n <= lim:
            return s + "<=%d" % lim if lim < 2**31 else s + "<=2^%d" % (lim.bit_length() - 1)
    return s + "big"


def pf(p):
    """features of a polynomial given as [[mono, coef], ...]"""
    cs = [unZ(t[1]) for t in p]
    f = {"terms": bucket(len(p)), "bits": bucket(max([abs(c).bit_length() for c in cs], default=0))}
    f["sign"] = "".join(s for s, t in (("+", any(c > 0 for c in cs)), ("-", any(c < 0 for c in cs))) if t)
    f["unit"] = "all1" if cs and all(abs(c) == 1 for c in cs) else "mixed"
    v = ""
    for k, n in enumerate("xyq"):
        es = [t[0][k] for t in p]
        v += (n if any(e > 0 for e in es) else "") + (n.upper() if any(e < 0 for e in es) else "")
        f["max" + n] = bucket(max(map(abs, es), default=0))
    us = [t[0][3:] for t in p if t[0][3] >= 0]
    v += ("u" if us else "")
    f["vars"] = v
    f["umax"] = bucket(max([max(u) for u in us], default=-1))
    return f


def main(pid, ops):
    run = check.Run("cov" + pid)
    check.build()
    plan = plans.PLANS[pid]
    sc = {}
    for kind, ch in plan["gen"](plans.G("%s/%d/%s" % (pid, 1, "quick")), plan.get("quick_factor", 8)).items():
        sc.setdefault(kind, []).extend(ch)
    H = collections.defaultdict(lambda: collections.defaultdict(collections.Counter))
    for kind, ch in sc.items():
        for rec in check.run_chunks(run, kind, [c for c in ch if c], plan.get("limit", 60)):
            P = [[] for _ in range(8)]
            T = [[[[0, 0, 0, -1, -1], [0]]] for _ in range(8)]
            for line in rec:
                e = json.loads(line)
                op = e["op"]
                if op in ("reset",):
                    continue
                h = H[op]
                h["st"][e.get("st", "?")] += 1
                if kind == "poly":
                    args = []
                    if op in PA: args.append(("a", P[e["a"]]))
                    if op in TA: args.append(("a", T[e["a"]]))
                    if op in PD: args.append(("d", P[e["d"]]))
                    if op in TD: args.append(("d", T[e["d"]]))
                    if op in PB: args.append(("b", P[e["b"]]))
                    if op in TB: args.append(("b", T[e["b"]]))
                    for n, p in args:
                        for k, v in pf(p).items():
                            h[n + "." + k][v] += 1
                    if len(args) == 2:
                        A, B = args[0][1], args[1][1]
                        ma, mb = {tuple(t[0]) for t in A}, {tuple(t[0]) for t in B}
                        h["pair"]["same" if A == B else "neg" if ma == mb and A else "disjoint" if not ma & mb else "overlap"] += 1
                        h["lens"]["<" if len(A) < len(B) else "=" if len(A) == len(B) else ">"] += 1
                        h["alias"][str(e.get("a", e.get("d")) == e["b"])] += 1
                    if isinstance(e.get("r"), list) and "d" in e and e.get("st") == "ok":
                        for k, v in pf(e["r"] if op not in TSET else [e["r"]]).items():
                            if k in ("terms", "bits"):
                                h["r." + k][v] += 1
                for k in ("v", "n", "k", "m", "x", "y", "ca", "cb"):
                    if k in e:
                        v = e[k]
                        if isinstance(v, list):
                            try:
                                v = unZ(v) if v and all(isinstance(t, int) for t in v) and not (len(v) in (2, 3) and op in ("vstr", "vcmp", "bvar", "bvarij", "pvarcoef", "svidx")) else None
                            except Exception:
                                v = None
                        if isinstance(v, int):
                            h["arg." + k][bucket(v)] += 1
                if "d" in e and e.get("st") == "ok" and kind == "poly" and isinstance(e["r"], list):
                    if op in TSET: T[e["d"]] = [e["r"]]
                    else: P[e["d"]] = e["r"]
    run.close()

    def key(s):
        t = s.lstrip("-<=")
        b = 2**int(t[2:]) if t.startswith("2^") else int(t) if t.isdigit() else 10**99
        return -b if s.startswith("-") else b
    if gaps:
        want = {"terms": "<=0 <=1 <=2 <=3 <=4 <=8 <=16 <=32 <=64 <=128 <=256 <=1024", "bits": "<=0 <=1 <=2 <=3 <=4 <=8 <=16 <=32 <=64 <=128 <=256 <=1024 <=65536",
                "maxx": "<=0 <=1 <=2 <=3 <=4 <=8 <=16 <=32 <=64 <=128 <=256 <=1024 <=65536 <=2^31", "umax": "-<=1 <=0 <=1 <=2 <=3 <=4 <=8 <=16 <=32 <=64 <=128 <=256 <=1024 <=65536 <=2^31"}
        want["maxy"] = want["maxq"] = want["maxx"]
        for op in sorted(H):
            out = []
            for k in list(H[op]):
                w = want.get(k.split(".")[-1]) if k[1:2] == "." else None
                if k.startswith("r.") or not w:
                    continue
                if H[op]["b.terms"].get("<=1", 0) == sum(H[op]["b.terms"].values()) and k == "b.terms":
                    continue
                miss = [x + (":%d" % H[op][k][x] if H[op][k][x] else "") for x in w.split() if H[op][k][x] < 3]
                if miss:
                    out.append("%s[%s]" % (k, " ".join(miss)))
            print(op, sum(H[op]["st"].values()), "; ".join(out), "|", " ".join("%s{%s}" % (k, " ".join("%s:%d" % t for t in sorted(H[op][k].items(), key=lambda t: key(t[0])))) for k in list(H[op]) if k.startswith("arg.") and k != "arg.v"))
        return
    for op in sorted(H):
        if ops and op not in ops:
            continue
        print("==", op)
        for k in list(H[op]):
            c = H[op][k]
            items = sorted(c.items(), key=lambda t: key(t[0])) if any("<=" in x for x in c) else sorted(c.items(), key=lambda t: -t[1])
            print("   %-8s" % k, " ".join("%s:%d" % t for t in items[:30]))


gaps = "-g" in sys.argv
main(sys.argv[1], [a for a in sys.argv[2:] if a != "-g"])
