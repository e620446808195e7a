----------------------------- MODULE PolyMachine -----------------------------
(***************************************************************************)
(* The polynomial part of the library as a state machine: registers of     *)
(* polynomials and terms, one action per public operation.  res is what a  *)
(* caller observes of the last operation.  An action is enabled exactly on *)
(* the operation's domain; where the library promises to refuse, the       *)
(* action yields <<"refused">> and changes nothing.                        *)
(***************************************************************************)
EXTENDS Poly, Render, FpPoly

CONSTANTS NP, NT            \* register counts; registers are 0..NP-1, 0..NT-1
VARIABLES P, T, res

pvars == <<P, T, res>>
PReg == 0..(NP-1)
TReg == 0..(NT-1)

TermZero == <<MonoOne, Z0>>
TermOne == <<MonoOne, Z1>>

PMInit == P = [i \in PReg |-> PZero] /\ T = [i \in TReg |-> TermZero] /\ res = <<"none">>

SetP(d, f) == P' = [P EXCEPT ![d] = f] /\ res' = <<"poly", f>> /\ UNCHANGED T
SetT(d, t) == T' = [T EXCEPT ![d] = t] /\ res' = <<"term", t>> /\ UNCHANGED P
Observe(kind, v) == res' = <<kind, v>> /\ UNCHANGED <<P, T>>
Refuse == res' = <<"refused">> /\ UNCHANGED <<P, T>>

ResetRegs == P' = [i \in PReg |-> PZero] /\ T' = [i \in TReg |-> TermZero] /\ res' = <<"none">>

(* ---- loading --------------------------------------------------------------- *)
PLoad(d, f) == SetP(d, f)
TLoad(d, t) == SetT(d, t)
PCopy(d, a) == SetP(d, P[a])
POneA(d) == SetP(d, POne)
PZeroA(d) == SetP(d, PZero)
TOneA(d) == SetT(d, TermOne)
TNewA(d) == SetT(d, TermZero)
ToPol(d, a) == SetP(d, TermPoly(T[a]))

(* ---- ring operations ----------------------------------------------------------- *)
PAdd(d, a, b) == SetP(d, PAdd2(P[a], P[b]))
PSub(d, a, b) == SetP(d, PSub2(P[a], P[b]))
PMul(d, a, b) == PMulOk(P[a], P[b]) /\ SetP(d, PMul2(P[a], P[b]))
PNeg(d, a) == SetP(d, PNeg1(P[a]))
PtAdd(d, a, b) == SetP(d, PAdd2(P[a], TermPoly(T[b])))
PtSub(d, a, b) == SetP(d, PSub2(P[a], TermPoly(T[b])))
PtMul(d, a, b) == PMulOk(P[a], TermPoly(T[b])) /\ SetP(d, PMul2(P[a], TermPoly(T[b])))
TpAdd(d, a, b) == SetP(d, PAdd2(TermPoly(T[a]), P[b]))
TpSub(d, a, b) == SetP(d, PSub2(TermPoly(T[a]), P[b]))
TpMul(d, a, b) == PMulOk(TermPoly(T[a]), P[b]) /\ SetP(d, PMul2(TermPoly(T[a]), P[b]))
TtAdd(d, a, b) == SetP(d, PAdd2(TermPoly(T[a]), TermPoly(T[b])))
TtSub(d, a, b) == SetP(d, PSub2(TermPoly(T[a]), TermPoly(T[b])))
TtMul(d, a, b) == MMulOk(T[a][1], T[b][1]) /\ SetT(d, TermMul(T[a], T[b]))
TNeg(d, a) == SetT(d, TermNeg(T[a]))

\* a monomial holds at most one unknown: a product that would need two is refused
MulRefused(f, g) == ~PMulOk(f, g) /\ Refuse
TtMulRefused(a, b) == T[a][2] # Z0 /\ T[b][2] # Z0 /\ ~MMulOk(T[a][1], T[b][1]) /\ Refuse

(* in-place forms: the register is its own left operand *)
PAddEq(d, b) == PAdd(d, d, b)
PSubEq(d, b) == PSub(d, d, b)
PMulEq(d, b) == PMul(d, d, b)
PtAddEq(d, b) == PtAdd(d, d, b)

(* ---- division by a single term ------------------------------------------------------ *)
DivBy(d, f, g) ==
  IF Cardinality(DOMAIN g) = 1
  THEN DivTermOk(OnlyTerm(g)) /\ SetP(d, PDivTerm(f, OnlyTerm(g)))
  ELSE Refuse
PDiv(d, a, b) == DivBy(d, P[a], P[b])
PtDiv(d, a, b) == DivBy(d, P[a], TermPoly(T[b]))
TpDiv(d, a, b) == DivBy(d, TermPoly(T[a]), P[b])
TtDiv(d, a, b) == IF T[b][2] = Z0 THEN ~HasVar(T[b][1]) /\ Refuse
                  ELSE DivTermOk(T[b]) /\ SetT(d, TermDiv(T[a], T[b]))
PDivEq(d, b) == PDiv(d, d, b)
\* so is the division of anything but 0 by a term with an unknown
DivRefused(f, g) == f # PZero /\ Cardinality(DOMAIN g) = 1 /\ HasVar(OnlyTerm(g)[1]) /\ Refuse
PtDivEq(d, b) == PtDiv(d, d, b)

(* ---- powers ---------------------------------------------------------------------------- *)
PPowA(d, a, n) == n >= 0 /\ PPowOk(P[a], n) /\ SetP(d, PPow(P[a], n))
TPowA(d, a, n) == n >= 0 /\ ~HasVar(T[a][1]) /\ SetT(d, TermPow(T[a], n))
PPowModA(d, a, n, m) == ZSign(n) >= 0 /\ ZSign(m) > 0 /\ PMulOk(P[a], P[a]) /\ SetP(d, PPowMod(P[a], n, m))
TPowModA(d, a, n, m) == n >= 0 /\ ZSign(m) > 0 /\ ~HasVar(T[a][1]) /\ SetT(d, TermPowMod(T[a], n, m))
PPowZA(d, a, n) == ZSign(n) >= 0 /\ PPowZOk(P[a]) /\ SetP(d, PPowZ(P[a], n))
TPowZA(d, a, n) == ZSign(n) >= 0 /\ TermPowZOk(T[a]) /\ SetT(d, TermPowZ(T[a], n))
TPowModZA(d, a, n, m) == ZSign(n) >= 0 /\ ZSign(m) > 0 /\ FixedMono(T[a][1]) /\ SetT(d, TermPowModZ(T[a], n, m))

\* a power above 1 needs two unknowns in a monomial; polynomials have no negative powers
PPowRefused(a, n) == (n < 0 \/ (n >= 2 /\ ~PMulOk(P[a], P[a]))) /\ Refuse
PPowZRefused(a, n) == (ZSign(n) < 0 \/ (ZLt(Z1, n) /\ ~PMulOk(P[a], P[a]))) /\ Refuse
PPowModRefused(a, n, m) == ZSign(m) > 0 /\ (ZSign(n) < 0 \/ (ZLt(Z1, n) /\ LET f == PMod(P[a], m) IN ~PMulOk(f, f))) /\ Refuse
TPowRefused(a, n) == T[a][2] # Z0 /\ HasVar(T[a][1]) /\ ZLt(Z1, n) /\ Refuse

(* ---- coefficients modulo p ----------------------------------------------------------------- *)
PRem(d, a, m) == ZSign(m) > 0 /\ SetP(d, PMod(P[a], m))
PRemRefused(a, m) == m = Z0 /\ P[a] # PZero /\ Refuse
TModRefused(m) == m = Z0 /\ Refuse
TModA(d, a, m) == ZSign(m) > 0 /\ SetT(d, TermMod(T[a], m))

(* ---- F_p[x] ------------------------------------------------------------------------------------ *)
PModPoly(d, a, b, m) == FpRemOk(P[a], P[b], m) /\ SetP(d, FpRem(P[a], P[b], m))
\* a divisor that vanishes modulo m is refused
PModPolyRefused(a, b, m) == ZSign(m) > 0 /\ ~HasY(P[b]) /\ ~HasQ(P[b]) /\ PMod(P[b], m) = PZero /\ Refuse
\* and so is one with y or q
PModPolyMixed(a, b, m) == ZSign(m) > 0 /\ (LET f == PMod(P[b], m) IN HasY(f) \/ HasQ(f)) /\ Refuse
PGcd(d, a, b, m) == FpGcdOk(P[a], P[b], m) /\ SetP(d, FpGcd(P[a], P[b], m))
PCoprime(a, b, m) == FpGcdOk(P[a], P[b], m) /\ Observe("bool", FpGcd(P[a], P[b], m) = POne)
PMonic(d, a, m) == UniX(P[a]) /\ SetP(d, FpMonic(P[a], m))

(* ---- curve equation ------------------------------------------------------------------------------ *)
YNonNeg(f) == \A k \in DOMAIN f : k[2] >= 0
PRed(d, a, ca, cb) == YNonNeg(P[a]) /\ SetP(d, Reduce(P[a], ca, cb))
PRedM(d, a, ca, cb, m) == YNonNeg(P[a]) /\ SetP(d, ReduceMod(P[a], ca, cb, m))

(* ---- evaluation and substitution -------------------------------------------------------------------- *)
XNonNeg(f) == \A k \in DOMAIN f : k[1] >= 0
PEvalX(d, a, v) == XNonNeg(P[a]) /\ SetP(d, EvalX(P[a], v))
PEvalY(d, a, v) == YNonNeg(P[a]) /\ SetP(d, EvalY(P[a], v))
OnlyXY(f) == \A k \in DOMAIN f : k[3] = 0 /\ ~HasVar(k)
PEvalXY(a, u, v) == XNonNeg(P[a]) /\ YNonNeg(P[a]) /\ OnlyXY(P[a]) /\ Observe("zz", EvalXY(P[a], u, v))
MEvalXY(a, u, v) == LET f == TermPoly(<<T[a][1], Z1>>)
                    IN XNonNeg(f) /\ YNonNeg(f) /\ OnlyXY(f) /\ Observe("zz", EvalXY(f, u, v))
MEvalQ(a, n) == LET m == T[a][1]
                IN m[1] = 0 /\ m[2] = 0 /\ m[3] >= 0 /\ ~HasVar(m) /\ Observe("int", ZToInt(ZPow(ZInt(n), m[3])))
PSubstX(d, a, b) == SubstOk(P[a], P[b], 1) /\ SetP(d, SubstX(P[a], P[b]))
PSubstY(d, a, b) == SubstOk(P[a], P[b], 2) /\ SetP(d, SubstY(P[a], P[b]))
TSubstX(d, a, b) == LET f == TermPoly(T[a]) IN SubstOk(TermPoly(<<T[a][1], Z1>>), P[b], 1) /\ SetP(d, SubstX(f, P[b]))
TSubstY(d, a, b) == LET f == TermPoly(T[a]) IN SubstOk(TermPoly(<<T[a][1], Z1>>), P[b], 2) /\ SetP(d, SubstY(f, P[b]))
MSubstX(d, a, b) == LET f == TermPoly(<<T[a][1], Z1>>) IN SubstOk(f, P[b], 1) /\ SetP(d, SubstX(f, P[b]))
MSubstY(d, a, b) == LET f == TermPoly(<<T[a][1], Z1>>) IN SubstOk(f, P[b], 2) /\ SetP(d, SubstY(f, P[b]))
PFrob(d, a, n) == n >= 0 /\ SetP(d, Frob(P[a], n))
PYPow(d, a, n) == n >= 0 /\ SetP(d, YPow(P[a], n))
PQPow(d, a, n) == SetP(d, QPow(P[a], n))
TFrob(d, a, n) == n >= 0 /\ SetT(d, <<FrobMono(T[a][1], n), T[a][2]>>)
TYPow(d, a, n) == n >= 0 /\ SetT(d, <<YPowMono(T[a][1], n), T[a][2]>>)
TQPow(d, a, n) == SetT(d, <<QPowMono(T[a][1], n), T[a][2]>>)
PScalar(a) ==
  IF P[a] = PZero THEN Observe("zz", Z0)
  ELSE IF DOMAIN P[a] = {MonoOne} THEN Observe("zz", P[a][MonoOne])
  ELSE OnlyPlain(P[a]) /\ Refuse

(* ---- derivatives -------------------------------------------------------------------------------------- *)
PDerX(d, a) == XNonNeg(P[a]) /\ SetP(d, DerX(P[a]))
PDerY(d, a) == YNonNeg(P[a]) /\ SetP(d, DerY(P[a]))
PDerRefused(a, ix) == (\E k \in DOMAIN P[a] : k[ix] < 0) /\ Refuse
TDerRefused(a, ix) == T[a][1][ix] < 0 /\ Refuse
TDer(d, a, ix) ==
  LET m == T[a][1] IN
  /\ m[ix] >= 0
  /\ SetT(d, IF m[ix] = 0 THEN TermZero
             ELSE <<[m EXCEPT ![ix] = @ - 1], ZMul(T[a][2], ZInt(m[ix]))>>)
TDerX(d, a) == TDer(d, a, 1)
TDerY(d, a) == TDer(d, a, 2)

(* ---- q-series ---------------------------------------------------------------------------------------------- *)
NoXY(f) == ~HasX(f) /\ ~HasY(f)
POmit(d, n) == NoXY(P[d]) /\ SetP(d, Omit(P[d], n))
MixedRefused(a) == ~NoXY(P[a]) /\ Refuse
PVarCoefRefused(a) == (~NoXY(P[a]) \/ HasQ(P[a])) /\ Refuse
PPowQ(d, a, n, k) == /\ n >= 0 /\ k >= 0 /\ NoXY(P[a]) /\ PPowOk(P[a], n)
                     /\ \A m \in DOMAIN P[a] : m[3] >= 0 /\ <<m[4], m[5]>> = NoVar
                     /\ SetP(d, Omit(PPow(P[a], n), k))
PQCoef(d, a, n) == NoXY(P[a]) /\ SetP(d, QCoef(P[a], n))
PVarCoef(a, v) == NoXY(P[a]) /\ ~HasQ(P[a]) /\ Observe("zz", VarCoef(P[a], v))

(* ---- order, leading term, tests ------------------------------------------------------------------------------ *)
MCmpA(m, k) == LET c == MCmp(m, k) IN Observe("tuple", <<c, c, IF c = 0 THEN 0 ELSE 1, c, c>>)
\* v, w are <<i, j>> or <<i, j, empty>>
VKey(v) == IF (Len(v) = 3 /\ v[3] = 1) \/ v = NoVar THEN <<0, 0, 0>> ELSE <<1, v[1], v[2]>>
VCmpA(v, w) ==
  LET k == VKey(v)  l == VKey(w)
      less == k[1] < l[1] \/ (k[1] = l[1] /\ (k[2] < l[2] \/ (k[2] = l[2] /\ k[3] < l[3])))
      c == IF k = l THEN 0 ELSE IF less THEN -1 ELSE 1
  IN Observe("tuple", <<c, c, IF c = 0 THEN 0 ELSE 1>>)
PLead(d, a) == SetT(d, Lead(P[a]))
PDeg(a) == ~HasY(P[a]) /\ ~HasQ(P[a]) /\ Observe("int", DegX(P[a]))
PDegRefused(a) == (HasY(P[a]) \/ HasQ(P[a])) /\ Refuse
PHas(a) == Observe("tuple", <<HasX(P[a]), HasY(P[a]), HasQ(P[a])>>)
THas(a) == LET m == T[a][1] IN Observe("tuple", <<m[1] # 0, m[2] # 0, m[3] # 0>>)
TGet(a) == Observe("tuple", T[a][1])
TSame(a, b) == Observe("bool", SubSeq(T[a][1], 1, 3) = SubSeq(T[b][1], 1, 3))
PIsZero(a) == Observe("bool", P[a] = PZero)
PIsOne(a) == Observe("bool", P[a] = POne)
PEq(a, b) == Observe("bool", P[a] = P[b])
TEq(a, b) == Observe("bool", T[a] = T[b])

(* ---- text ---------------------------------------------------------------------------------------------------------- *)
PStr(a) == Observe("str", RPoly(P[a]))
TStr(a) == Observe("str", RTerm(T[a]))
VStr(v) == Observe("str", IF Len(v) = 3 /\ v[3] = 1 THEN "" ELSE RVar(v))

(* ---- invariants -------------------------------------------------------------------------------------------------------- *)
RegistersCanonical == \A i \in PReg : IsPoly(P[i])
=============================================================================
