-------------------------------- MODULE Poly --------------------------------
(***************************************************************************)
(* The ring of polynomials with integer coefficients in x, y, q (exponents *)
(* of any sign) where a monomial may carry one unknown c_i_j.              *)
(*                                                                         *)
(* A monomial is <<x, y, q, i, j>>; (i, j) = (-1, -1) means "no unknown".  *)
(* A polynomial is the function from its monomials to their non-zero       *)
(* coefficients (integers of ZZ); 0 is the function with empty domain.     *)
(* A term is <<monomial, coefficient>>; its coefficient may be 0.          *)
(***************************************************************************)
EXTENDS ZZ, SequencesExt, TLC

NoVar == <<-1, -1>>
Mono(x, y, q, v) == <<x, y, q, v[1], v[2]>>
MonoOne == <<0, 0, 0, -1, -1>>
VarOf(m) == <<m[4], m[5]>>
HasVar(m) == m[4] # -1

(* ---- order: x-exponent, then y, then q, then the unknown (none first) --- *)
MLess(a, b) ==
  \/ a[1] < b[1]
  \/ a[1] = b[1] /\ \/ a[2] < b[2]
                    \/ a[2] = b[2] /\ \/ a[3] < b[3]
                                      \/ a[3] = b[3] /\ \/ a[4] < b[4]
                                                        \/ a[4] = b[4] /\ a[5] < b[5]
MCmp(a, b) == IF a = b THEN 0 ELSE IF MLess(a, b) THEN -1 ELSE 1

(* ---- polynomials ---------------------------------------------------------- *)
PZero == << >>
Strip(f) == TLCEval([m \in {k \in DOMAIN f : f[k] # Z0} |-> f[m]])    \* (TLCEval(e) = e, evaluated at once)
TermPoly(t) == IF t[2] = Z0 THEN PZero ELSE [m \in {t[1]} |-> t[2]]
POne == TermPoly(<<MonoOne, Z1>>)
PConst(c) == TermPoly(<<MonoOne, c>>)
PX == TermPoly(<<<<1, 0, 0, -1, -1>>, Z1>>)
PY == TermPoly(<<<<0, 1, 0, -1, -1>>, Z1>>)
Coef(f, m) == IF m \in DOMAIN f THEN f[m] ELSE Z0
IsPoly(f) == \A m \in DOMAIN f : /\ m \in Seq(Int) /\ Len(m) = 5
                                 /\ f[m] # Z0 /\ zIs(f[m])

\* the same in list form (ascending), as the library stores it
PList(f) == LET ms == SetToSortSeq(DOMAIN f, MLess) IN [i \in 1..Len(ms) |-> <<ms[i], f[ms[i]]>>]

PAdd2(f, g) == Strip([m \in DOMAIN f \cup DOMAIN g |-> ZAdd(Coef(f, m), Coef(g, m))])
PNeg1(f) == TLCEval([m \in DOMAIN f |-> ZNeg(f[m])])
PSub2(f, g) == PAdd2(f, PNeg1(g))
PScale(f, c) == IF c = Z0 THEN PZero ELSE [m \in DOMAIN f |-> ZMul(f[m], c)]

\* the product of two monomials exists unless both carry an unknown
MMulOk(a, b) == ~(HasVar(a) /\ HasVar(b))
MMul(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3],
                IF HasVar(a) THEN a[4] ELSE b[4], IF HasVar(a) THEN a[5] ELSE b[5]>>
PMulOk(f, g) == \A a \in DOMAIN f, b \in DOMAIN g : MMulOk(a, b)
PMulDef(f, g) == ZCollect([ab \in (DOMAIN f) \X (DOMAIN g) |->
                           <<MMul(ab[1], ab[2]), ZMul(f[ab[1]], g[ab[2]])>>])
\* the same; java/Poly.java computes it (MCPoly compares the two)
PMul2(f, g) == PMulDef(f, g)

TermMul(s, t) == <<MMul(s[1], t[1]), ZMul(s[2], t[2])>>
TermNeg(t) == <<t[1], ZNeg(t[2])>>

\* n-fold product (halving keeps long powers affordable; MCPoly checks it is the n-fold product)
RECURSIVE PPow(_, _)
PPow(f, n) == IF n = 0 THEN POne
              ELSE IF n = 1 THEN f
              ELSE LET h == PPow(f, n \div 2)
                       s == PMul2(h, h)
                   IN IF n % 2 = 1 THEN PMul2(s, f) ELSE s
RECURSIVE PPowDef(_, _)
PPowDef(f, n) == IF n = 0 THEN POne ELSE PMul2(f, PPowDef(f, n - 1))
PPowOk(f, n) == n <= 1 \/ PMulOk(f, f)
TermPow(t, n) == <<<<t[1][1] * n, t[1][2] * n, t[1][3] * n, -1, -1>>, ZPow(t[2], n)>>

\* exponents of any size: what does not grow
FixedMono(m) == m[1] = 0 /\ m[2] = 0 /\ m[3] = 0 /\ ~HasVar(m)
TermPowZOk(t) == FixedMono(t[1]) /\ ZUnit(t[2])
TermPowZ(t, n) == <<t[1], ZPowUnit(t[2], n)>>
PPowZOk(f) == \A m \in DOMAIN f : TermPowZOk(<<m, f[m]>>)
PPowZ(f, n) == IF n = Z0 THEN POne ELSE [m \in DOMAIN f |-> ZPowUnit(f[m], n)]
TermPowModZ(t, n, p) == <<t[1], ZPowMod(t[2], n, p)>>

(* ---- division by one term -------------------------------------------------- *)
DivMono(m, d) == <<m[1] - d[1], m[2] - d[2], m[3] - d[3], m[4], m[5]>>
DivTermOk(d) == ~HasVar(d[1]) /\ d[2] # Z0
PDivTerm(f, d) == Strip([k \in {DivMono(m, d[1]) : m \in DOMAIN f} |->
                           ZFloorDiv(f[<<k[1] + d[1][1], k[2] + d[1][2], k[3] + d[1][3], k[4], k[5]>>], d[2])])
TermDiv(t, d) == <<DivMono(t[1], d[1]), ZFloorDiv(t[2], d[2])>>
OnlyTerm(g) == LET m == CHOOSE m \in DOMAIN g : TRUE IN <<m, g[m]>>

(* ---- coefficients modulo p -------------------------------------------------- *)
PMod(f, p) == Strip([m \in DOMAIN f |-> ZMod(f[m], p)])
TermMod(t, p) == <<t[1], ZMod(t[2], p)>>
PReduced(f, p) == \A m \in DOMAIN f : ZSign(f[m]) >= 0 /\ ZLt(f[m], p)

RECURSIVE PPowMod(_, _, _)     \* power modulo p, exponent an integer of ZZ
PPowMod(f, n, p) ==
  IF n = Z0 THEN PMod(POne, p)
  ELSE LET h == PPowMod(f, ZFloorDiv(n, ZInt(2)), p)
           s == PMod(PMul2(h, h), p)
       IN IF ZEven(n) THEN s ELSE PMod(PMul2(s, PMod(f, p)), p)
TermPowMod(t, n, p) == <<<<t[1][1] * n, t[1][2] * n, t[1][3] * n, t[1][4], t[1][5]>>, ZPowMod(t[2], ZInt(n), p)>>

(* ---- maps that send every term to a term or polynomial ------------------------ *)
MapTerms(f, K(_), C(_, _)) == ZCollect([m \in DOMAIN f |-> <<K(m), C(m, f[m])>>])
KeepC(m, c) == c

EvalX(f, v) == MapTerms(f, LAMBDA m : <<0, m[2], m[3], m[4], m[5]>>, LAMBDA m, c : ZMul(c, ZPow(v, m[1])))
EvalY(f, v) == MapTerms(f, LAMBDA m : <<m[1], 0, m[3], m[4], m[5]>>, LAMBDA m, c : ZMul(c, ZPow(v, m[2])))
EvalXY(f, u, v) == ZSum([m \in DOMAIN f |-> ZMul(f[m], ZMul(ZPow(u, m[1]), ZPow(v, m[2])))])
FrobMono(m, n) == <<n * m[1], n * m[2], m[3], m[4], m[5]>>
YPowMono(m, n) == <<m[1], n * m[2], m[3], m[4], m[5]>>
QPowMono(m, n) == <<m[1], m[2], n * m[3], m[4], m[5]>>
Frob(f, n) == MapTerms(f, LAMBDA m : FrobMono(m, n), KeepC)
YPow(f, n) == MapTerms(f, LAMBDA m : YPowMono(m, n), KeepC)
QPow(f, n) == MapTerms(f, LAMBDA m : QPowMono(m, n), KeepC)

PSum(S, F(_)) == FoldSet(LAMBDA i, acc : PAdd2(acc, F(i)), PZero, S)

SubstXMono(m, g) == PMul2(PPow(g, m[1]), TermPoly(<<<<0, m[2], m[3], m[4], m[5]>>, Z1>>))
SubstYMono(m, g) == PMul2(PPow(g, m[2]), TermPoly(<<<<m[1], 0, m[3], m[4], m[5]>>, Z1>>))
SubstX(f, g) == PSum(DOMAIN f, LAMBDA m : PScale(SubstXMono(m, g), f[m]))
SubstY(f, g) == PSum(DOMAIN f, LAMBDA m : PScale(SubstYMono(m, g), f[m]))
\* substituting g for x (index 1) or y (index 2) is defined on f
SubstOk(f, g, ix) ==
  \A m \in DOMAIN f : /\ m[ix] >= 0
                      /\ m[ix] >= 2 => PMulOk(g, g)
                      /\ m[ix] >= 1 /\ HasVar(m) => \A k \in DOMAIN g : ~HasVar(k)

(* ---- y^2 = x^3 + a x + b --------------------------------------------------------- *)
Rhs(a, b) == PAdd2(TermPoly(<<<<3, 0, 0, -1, -1>>, Z1>>),
              PAdd2(TermPoly(<<<<1, 0, 0, -1, -1>>, a>>), PConst(b)))
Reduce(f, a, b) ==
  PSum(DOMAIN f, LAMBDA m :
    IF m[2] < 2 THEN TermPoly(<<m, f[m]>>)
    ELSE PMul2(TermPoly(<<<<m[1], m[2] % 2, m[3], m[4], m[5]>>, f[m]>>), PPow(Rhs(a, b), m[2] \div 2)))
ReduceMod(f, a, b, p) ==
  PMod(PSum(DOMAIN f, LAMBDA m :
    IF m[2] < 2 THEN TermPoly(<<m, f[m]>>)
    ELSE PMul2(TermPoly(<<<<m[1], m[2] % 2, m[3], m[4], m[5]>>, f[m]>>),
               PPowMod(Rhs(a, b), ZInt(m[2] \div 2), p))), p)

(* ---- formal derivatives ------------------------------------------------------------ *)
DerX(f) == ZCollect([m \in {k \in DOMAIN f : k[1] # 0} |->
                       <<<<m[1] - 1, m[2], m[3], m[4], m[5]>>, ZMul(f[m], ZInt(m[1]))>>])
DerY(f) == ZCollect([m \in {k \in DOMAIN f : k[2] # 0} |->
                       <<<<m[1], m[2] - 1, m[3], m[4], m[5]>>, ZMul(f[m], ZInt(m[2]))>>])

(* ---- q-series ------------------------------------------------------------------------ *)
HasX(f) == \E m \in DOMAIN f : m[1] # 0
HasY(f) == \E m \in DOMAIN f : m[2] # 0
HasQ(f) == \E m \in DOMAIN f : m[3] # 0
Omit(f, n) == [m \in {k \in DOMAIN f : k[3] <= n} |-> f[m]]
QCoef(f, n) == ZCollect([m \in {k \in DOMAIN f : k[3] = n} |-> <<<<0, 0, 0, m[4], m[5]>>, f[m]>>])
VarCoef(f, v) == Coef(f, <<0, 0, 0, v[1], v[2]>>)

(* ---- leading term ------------------------------------------------------------------------ *)
LeadMono(f) == CHOOSE m \in DOMAIN f : \A k \in DOMAIN f : k = m \/ MLess(k, m)
Lead(f) == IF f = PZero THEN <<MonoOne, Z0>> ELSE <<LeadMono(f), f[LeadMono(f)]>>
DegX(f) == Lead(f)[1][1]

(* ---- recorded values ------------------------------------------------------------------------ *)
\* value of a recorded list of <<monomial, coefficient>> (zero coefficients do not change the value)
Decode(l) == ZCollect(l)
\* the recorded list is exactly the canonical form of a polynomial
Canonical(l) == /\ \A i \in 1..Len(l) : l[i][2] # Z0
                /\ \A i \in 2..Len(l) : MLess(l[i-1][1], l[i][1])
=============================================================================
