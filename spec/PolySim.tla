------------------------------- MODULE PolySim -------------------------------
(***************************************************************************)
(* Behaviours of PolyMachine for replay against the library.  Run with     *)
(* tlc -simulate: every step picks an operation and arguments at random;   *)
(* steps outside an operation's domain, or with values that grow beyond    *)
(* the bounds, are not taken (the state stutters).  At the end of a        *)
(* behaviour the history is printed: a script for harness/.                *)
(***************************************************************************)
EXTENDS BuilderMachine, Json, TLC

CONSTANTS MaxTerms, MaxLimbs, MaxExp, Depth, Kinds
VARIABLES hist, n
svars == <<P, T, bld, res, hist, n>>

R(S) == RandomElement(S)
Cs == {-7, -3, -2, -1, 0, 1, 2, 3, 4, 6, 10, 9999, 10000, 12345}
RandZ(k) == CASE R(1..6) = 1 -> ZMul(ZInt(R(Cs)), ZPow(ZInt(R(2..9999)), R(1..8)))
              [] OTHER -> ZInt(R(Cs))
RandNZ(k) == LET z == RandZ(k) IN IF z = Z0 THEN ZInt(5) ELSE z
RandVar(k) == IF R(1..4) = 1 THEN <<R(0..2), R(0..2)>> ELSE NoVar
\* kind 0: x, y only with exponents >= 0; kind 1: x only; kind 2: q and unknowns; kind 3: anything
RandMono(kind) ==
  CASE kind = 0 -> Mono(R(0..3), R(0..3), 0, NoVar)
    [] kind = 1 -> Mono(R(0..5), 0, 0, NoVar)
    [] kind = 2 -> Mono(0, 0, R(-3..5), RandVar(0))
    [] OTHER -> Mono(R(-2..3), R(-2..3), R(-2..3), RandVar(0))
RandTerm(kind) == <<RandMono(kind), RandZ(0)>>
RandList(kind, k) == [i \in 1..k |-> <<RandMono(kind), RandNZ(0)>>]
Primes == {2, 3, 5, 7, 11, 13, 101}

\* the argument record is fixed first, then the action is taken if its domain allows
Try(o, A) == A /\ hist' = Append(hist, o)

Do(k, d, a, b, m, z, z2, e, kind) ==
  CASE k = 1  -> \E l \in {RandList(kind, R(1..5))} :
                 LET f == Decode(l) IN Try([op |-> "pload", d |-> d, x |-> PList(f)], PLoad(d, f))
    [] k = 2  -> \E t \in {RandTerm(kind)} : Try([op |-> "tload", d |-> d % NT, x |-> t], TLoad(d % NT, t))
    [] k = 3  -> Try([op |-> "padd", d |-> d, a |-> a, b |-> b, v |-> e % 4], PAdd(d, a, b))
    [] k = 4  -> Try([op |-> "psub", d |-> d, a |-> a, b |-> b, v |-> e % 4], PSub(d, a, b))
    [] k = 5  -> Try([op |-> "pmul", d |-> d, a |-> a, b |-> b, v |-> e % 4], PMul(d, a, b))
    [] k = 6  -> Try([op |-> "pneg", d |-> d, a |-> a, v |-> e % 2], PNeg(d, a))
    [] k = 7  -> Try([op |-> "ptadd", d |-> d, a |-> a, b |-> b % NT, v |-> e % 4], PtAdd(d, a, b % NT))
    [] k = 8  -> Try([op |-> "ptsub", d |-> d, a |-> a, b |-> b % NT, v |-> e % 4], PtSub(d, a, b % NT))
    [] k = 9  -> Try([op |-> "ptmul", d |-> d, a |-> a, b |-> b % NT, v |-> e % 4], PtMul(d, a, b % NT))
    [] k = 10 -> Try([op |-> "tpadd", d |-> d, a |-> a % NT, b |-> b, v |-> e % 4], TpAdd(d, a % NT, b))
    [] k = 11 -> Try([op |-> "tpsub", d |-> d, a |-> a % NT, b |-> b, v |-> e % 4], TpSub(d, a % NT, b))
    [] k = 12 -> Try([op |-> "tpmul", d |-> d, a |-> a % NT, b |-> b, v |-> e % 4], TpMul(d, a % NT, b))
    [] k = 13 -> Try([op |-> "ttadd", d |-> d, a |-> a % NT, b |-> b % NT, v |-> e % 4], TtAdd(d, a % NT, b % NT))
    [] k = 14 -> Try([op |-> "ttsub", d |-> d, a |-> a % NT, b |-> b % NT, v |-> e % 4], TtSub(d, a % NT, b % NT))
    [] k = 15 -> Try([op |-> "ttmul", d |-> d % NT, a |-> a % NT, b |-> b % NT, v |-> e % 4], TtMul(d % NT, a % NT, b % NT))
    [] k = 16 -> Try([op |-> "tneg", d |-> d % NT, a |-> a % NT, v |-> e % 2], TNeg(d % NT, a % NT))
    [] k = 17 -> Try([op |-> "paddeq", d |-> d, b |-> b, v |-> e % 2], PAddEq(d, b))
    [] k = 18 -> Try([op |-> "psubeq", d |-> d, b |-> b, v |-> e % 2], PSubEq(d, b))
    [] k = 19 -> Try([op |-> "pmuleq", d |-> d, b |-> b, v |-> e % 2], PMulEq(d, b))
    [] k = 20 -> Try([op |-> "ptaddeq", d |-> d, b |-> b % NT, v |-> e % 2], PtAddEq(d, b % NT))
    [] k = 21 -> Try([op |-> "topol", d |-> d, a |-> a % NT], ToPol(d, a % NT))
    [] k = 22 -> Try([op |-> "pcopy", d |-> d, a |-> a], PCopy(d, a))
    \* ---- the rest of the repertoire (not ring operations)
    [] k = 23 -> Try([op |-> "pdiv", d |-> d, a |-> a, b |-> b, v |-> e % 4], PDiv(d, a, b))
    [] k = 24 -> Try([op |-> "ptdiv", d |-> d, a |-> a, b |-> b % NT, v |-> e % 4], PtDiv(d, a, b % NT))
    [] k = 25 -> Try([op |-> "ppow", d |-> d, a |-> a, n |-> e % 4, v |-> e % 3], PPowA(d, a, e % 4))
    [] k = 26 -> Try([op |-> "ppowmod", d |-> d, a |-> a, n |-> ZInt(e % 5), m |-> m], PPowModA(d, a, ZInt(e % 5), m))
    [] k = 27 -> Try([op |-> "prem", d |-> d, a |-> a, m |-> m, v |-> e % 2], PRem(d, a, m))
    [] k = 28 -> Try([op |-> "pmodeq", d |-> d, m |-> m], PRem(d, d, m))
    [] k = 29 -> Try([op |-> "pmodpoly", d |-> d, a |-> a, b |-> b, m |-> m], PModPoly(d, a, b, m))
    [] k = 30 -> Try([op |-> "pgcd", d |-> d, a |-> a, b |-> b, m |-> m], PGcd(d, a, b, m))
    [] k = 31 -> Try([op |-> "pmonic", d |-> d, a |-> a, m |-> m], PMonic(d, a, m))
    [] k = 32 -> Try([op |-> "pred", d |-> d, a |-> a, ca |-> z, cb |-> z2], PRed(d, a, z, z2))
    [] k = 33 -> Try([op |-> "predm", d |-> d, a |-> a, ca |-> z, cb |-> z2, m |-> ZToInt(m)], PRedM(d, a, z, z2, m))
    [] k = 34 -> Try([op |-> "pevalx", d |-> d, a |-> a, x |-> z], PEvalX(d, a, z))
    [] k = 35 -> Try([op |-> "pevaly", d |-> d, a |-> a, x |-> z], PEvalY(d, a, z))
    [] k = 36 -> Try([op |-> "psubx", d |-> d, a |-> a, b |-> b], PSubstX(d, a, b))
    [] k = 37 -> Try([op |-> "psuby", d |-> d, a |-> a, b |-> b], PSubstY(d, a, b))
    [] k = 38 -> Try([op |-> "pfrob", d |-> d, a |-> a, n |-> e % 4], PFrob(d, a, e % 4))
    [] k = 39 -> Try([op |-> "pypow", d |-> d, a |-> a, n |-> e % 4], PYPow(d, a, e % 4))
    [] k = 40 -> Try([op |-> "pqpow", d |-> d, a |-> a, n |-> (e % 6) - 2], PQPow(d, a, (e % 6) - 2))
    [] k = 41 -> Try([op |-> "pderx", d |-> d, a |-> a], PDerX(d, a))
    [] k = 42 -> Try([op |-> "pdery", d |-> d, a |-> a], PDerY(d, a))
    [] k = 43 -> Try([op |-> "pomit", d |-> d, n |-> (e % 8) - 3], POmit(d, (e % 8) - 3))
    [] k = 44 -> Try([op |-> "ppowq", d |-> d, a |-> a, n |-> e % 4, k |-> e % 7], PPowQ(d, a, e % 4, e % 7))
    [] k = 45 -> Try([op |-> "pqcoef", d |-> d, a |-> a, n |-> (e % 8) - 3], PQCoef(d, a, (e % 8) - 3))
    [] k = 46 -> Try([op |-> "piszero", a |-> a], PIsZero(a))
    [] k = 47 -> Try([op |-> "peq", a |-> a, b |-> b], PEq(a, b))
    [] k = 48 -> Try([op |-> "phas", a |-> a], PHas(a))
    [] k = 49 -> Try([op |-> "plead", d |-> d % NT, a |-> a], PLead(d % NT, a))
    [] k = 50 -> Try([op |-> "pisone", a |-> a], PIsOne(a))
    [] k = 51 -> Try([op |-> "tpdiv", d |-> d, a |-> a % NT, b |-> b, v |-> e % 4], TpDiv(d, a % NT, b))
    [] k = 52 -> Try([op |-> "pdeg", a |-> a], PDeg(a))
    [] k = 53 -> Try([op |-> "pstr", a |-> a], PStr(a))
    [] k = 54 -> Try([op |-> "tmodeq", d |-> d % NT, m |-> m], TModA(d % NT, d % NT, m))

\* the term builder
BDo(k, d, z, e) ==
  CASE k = 60 -> Try([op |-> "bnew"], BNew)
    [] k = 61 -> Try([op |-> "bcoef", n |-> e - 420, v |-> e % 3], BCoef(ZInt(e - 420)))
    [] k = 62 -> Try([op |-> "bcoefz", x |-> z, v |-> e % 2], BCoef(z))
    [] k = 63 -> Try([op |-> "bx", n |-> (e % 41) - 20], BXpow((e % 41) - 20))
    [] k = 64 -> Try([op |-> "by", n |-> (e % 41) - 20], BYpow((e % 41) - 20))
    [] k = 65 -> Try([op |-> "bq", n |-> (e % 41) - 20], BQpow((e % 41) - 20))
    [] k = 66 -> \E v \in {IF e % 3 = 0 THEN <<e % 5, e % 7, 1>> ELSE IF e % 3 = 1 THEN NoVar ELSE <<e % 5, e % 7>>} :
                 Try([op |-> "bvar", x |-> v], BVar(v))
    [] k = 67 -> \E v \in {<<(e % 5) - 1, (e % 7) - 1>>} : Try([op |-> "bvarij", x |-> v], BVarIJ(v[1], v[2]))
    [] k = 68 -> Try([op |-> "bclone"], BClone)
    [] k = 69 -> Try([op |-> "bbuild", d |-> d % NT], BBuild(d % NT))
    [] k = 70 -> Try([op |-> "bpol", d |-> d], BPol(d))

AllOps == 1..54
RingOps == 1..22
\* the operations of one property among the ring operations
PowOps == RingOps \cup {25, 26, 44}
ModOps == RingOps \cup {27, 28, 54, 46, 47}
DivOps == RingOps \cup {23, 24, 51}
FpOps == {1, 2, 3, 4, 5, 22, 27, 28, 29, 30, 31, 49, 52, 34}
RedOps == {1, 2, 3, 4, 5, 19, 22, 32, 33, 35, 25}
EvalOps == {1, 2, 3, 4, 5, 6, 22, 34, 35, 36, 37, 38, 39, 40, 46}
DerOps == {1, 2, 3, 4, 5, 9, 22, 41, 42, 31}
SerOps == {1, 2, 3, 4, 5, 9, 22, 40, 43, 44, 45}
OrdOps == RingOps \cup {47, 48, 49, 50, 52, 53}
BuildOps == {1, 2, 3, 5, 9, 13, 15, 16, 21, 53} \cup 60..70
CONSTANT Ops      \* the operations to draw from

Small(f) == /\ Cardinality(DOMAIN f) <= MaxTerms
            /\ \A m \in DOMAIN f : /\ Len(f[m]) <= MaxLimbs
                                   /\ \A i \in 1..3 : m[i] <= MaxExp /\ m[i] >= -MaxExp
SmallT(t) == Len(t[2]) <= MaxLimbs /\ \A i \in 1..3 : t[1][i] <= MaxExp /\ t[1][i] >= -MaxExp
Bounded == (\A i \in PReg : Small(P'[i])) /\ (\A i \in TReg : SmallT(T'[i]))
\* products of large operands are not even computed
Affordable(k, a, b) == \/ k \notin {5, 19, 25, 26, 36, 37, 44}
                       \/ Cardinality(DOMAIN P[a]) * Cardinality(DOMAIN P[b]) <= 4 * MaxTerms

Step(k) ==
  \E d \in {R(PReg)}, a \in {R(PReg)}, b \in {R(PReg)}, e \in {R(0..839)}, kind \in {R(Kinds)},
     m \in {ZInt(R(Primes))}, z \in {RandZ(0)}, z2 \in {RandZ(1)} :
     /\ IF k >= 60 THEN BDo(k, d, z, e)
        ELSE Affordable(k, a, b) /\ Do(k, d, a, b, m, z, z2, e, kind) /\ UNCHANGED bld
     /\ Bounded

SimInit == PMInit /\ BInit /\ hist = <<[op |-> "reset"]>> /\ n = 0
SimNext == /\ n < Depth
           /\ n' = n + 1
           /\ \/ \E k \in {IF n < 6 THEN 1 ELSE IF n < 9 THEN 2 ELSE R(Ops)} : Step(k)
              \/ UNCHANGED <<P, T, bld, res, hist>>
SimSpec == SimInit /\ [][SimNext]_svars
SimPrint == n = Depth => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
