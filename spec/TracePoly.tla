------------------------------ MODULE TracePoly ------------------------------
(***************************************************************************)
(* Checks recorded executions of the library against PolyMachine and       *)
(* BuilderMachine: every event must be a step of the specification from    *)
(* the specification's own state, with the recorded observation.           *)
(* Strict adds that recorded polynomials are in canonical form.            *)
(***************************************************************************)
EXTENDS BuilderMachine, TraceBase

CONSTANT Strict

tvars == <<P, T, bld, res, l>>

Setters == {"tload", "bnew", "bcoef", "bcoefz", "bx", "by", "bq", "bvar", "bvarij", "bclone", "bbuild"}
Matches(e) ==
  IF res'[1] = "refused" THEN e.st = "panic"
  ELSE /\ e.st = "ok"
       /\ CASE res'[1] = "poly" -> Decode(e.r) = res'[2] /\ (Strict => Canonical(e.r))
            \* the monomial of a term with coefficient 0 only matters where it was set explicitly
            [] res'[1] = "term" -> IF res'[2][2] # Z0 \/ e.op \in Setters THEN e.r = res'[2] ELSE e.r[2] = Z0
            [] OTHER -> e.r = res'[2]

PolyStep(e) ==
  \/ e.op = "pload" /\ PLoad(e.d, Decode(e.x))
  \/ e.op = "tload" /\ TLoad(e.d, e.x)
  \/ e.op = "pcopy" /\ PCopy(e.d, e.a)
  \/ e.op = "pone" /\ POneA(e.d)
  \/ e.op = "pzero" /\ PZeroA(e.d)
  \/ e.op = "tone" /\ TOneA(e.d)
  \/ e.op = "tnew" /\ TNewA(e.d)
  \/ e.op = "topol" /\ ToPol(e.d, e.a)
  \/ e.op = "padd" /\ PAdd(e.d, e.a, e.b)
  \/ e.op = "psub" /\ PSub(e.d, e.a, e.b)
  \/ e.op = "pmul" /\ PMul(e.d, e.a, e.b)
  \/ e.op = "pmul" /\ MulRefused(P[e.a], P[e.b])
  \/ e.op = "pneg" /\ PNeg(e.d, e.a)
  \/ e.op = "ptadd" /\ PtAdd(e.d, e.a, e.b)
  \/ e.op = "ptsub" /\ PtSub(e.d, e.a, e.b)
  \/ e.op = "ptmul" /\ PtMul(e.d, e.a, e.b)
  \/ e.op = "ptmul" /\ MulRefused(P[e.a], TermPoly(T[e.b]))
  \/ e.op = "tpadd" /\ TpAdd(e.d, e.a, e.b)
  \/ e.op = "tpsub" /\ TpSub(e.d, e.a, e.b)
  \/ e.op = "tpmul" /\ TpMul(e.d, e.a, e.b)
  \/ e.op = "tpmul" /\ MulRefused(TermPoly(T[e.a]), P[e.b])
  \/ e.op = "ttadd" /\ TtAdd(e.d, e.a, e.b)
  \/ e.op = "ttsub" /\ TtSub(e.d, e.a, e.b)
  \/ e.op = "ttmul" /\ TtMul(e.d, e.a, e.b)
  \/ e.op = "ttmul" /\ TtMulRefused(e.a, e.b)
  \/ e.op = "tneg" /\ TNeg(e.d, e.a)
  \/ e.op = "paddeq" /\ PAddEq(e.d, e.b)
  \/ e.op = "psubeq" /\ PSubEq(e.d, e.b)
  \/ e.op = "pmuleq" /\ PMulEq(e.d, e.b)
  \/ e.op = "pmuleq" /\ MulRefused(P[e.d], P[e.b])
  \/ e.op = "ptaddeq" /\ PtAddEq(e.d, e.b)
  \/ e.op = "pdiv" /\ PDiv(e.d, e.a, e.b)
  \/ e.op = "pdiv" /\ DivRefused(P[e.a], P[e.b])
  \/ e.op = "ptdiv" /\ PtDiv(e.d, e.a, e.b)
  \/ e.op = "ptdiv" /\ DivRefused(P[e.a], TermPoly(T[e.b]))
  \/ e.op = "tpdiv" /\ TpDiv(e.d, e.a, e.b)
  \/ e.op = "tpdiv" /\ DivRefused(TermPoly(T[e.a]), P[e.b])
  \/ e.op = "ttdiv" /\ TtDiv(e.d, e.a, e.b)
  \/ e.op = "ttdiv" /\ DivRefused(TermPoly(T[e.a]), TermPoly(T[e.b]))
  \/ e.op = "pdiveq" /\ PDivEq(e.d, e.b)
  \/ e.op = "pdiveq" /\ DivRefused(P[e.d], P[e.b])
  \/ e.op = "ptdiveq" /\ PtDivEq(e.d, e.b)
  \/ e.op = "ptdiveq" /\ DivRefused(P[e.d], TermPoly(T[e.b]))
  \/ e.op = "ppow" /\ PPowA(e.d, e.a, e.n)
  \/ e.op = "ppow" /\ PPowRefused(e.a, e.n)
  \/ e.op = "psquare" /\ PPowA(e.d, e.a, 2)
  \/ e.op = "psquare" /\ PPowRefused(e.a, 2)
  \/ e.op = "pcube" /\ PPowA(e.d, e.a, 3)
  \/ e.op = "pcube" /\ PPowRefused(e.a, 3)
  \/ e.op = "tpow" /\ TPowA(e.d, e.a, e.n)
  \/ e.op = "tpow" /\ TPowRefused(e.a, ZInt(e.n))
  \/ e.op = "ppowz" /\ PPowZA(e.d, e.a, e.n)
  \/ e.op = "ppowz" /\ PPowZRefused(e.a, e.n)
  \/ e.op = "tpowz" /\ TPowZA(e.d, e.a, e.n)
  \/ e.op = "tpowz" /\ TPowRefused(e.a, e.n)
  \/ e.op = "tpowmodz" /\ TPowModZA(e.d, e.a, e.n, e.m)
  \/ e.op = "ppowmod" /\ PPowModA(e.d, e.a, e.n, e.m)
  \/ e.op = "ppowmod" /\ PPowModRefused(e.a, e.n, e.m)
  \/ e.op = "tpowmod" /\ TPowModA(e.d, e.a, e.n, e.m)
  \/ e.op = "prem" /\ PRem(e.d, e.a, e.m)
  \/ e.op = "pmodeq" /\ PRem(e.d, e.d, e.m)
  \/ e.op = "tmod" /\ TModA(e.d, e.a, e.m)
  \/ e.op = "tmodeq" /\ TModA(e.d, e.d, e.m)
  \/ e.op = "prem" /\ PRemRefused(e.a, e.m)
  \/ e.op = "pmodeq" /\ PRemRefused(e.d, e.m)
  \/ e.op \in {"tmod", "tmodeq"} /\ TModRefused(e.m)
  \/ e.op = "pmodpoly" /\ PModPoly(e.d, e.a, e.b, e.m)
  \/ e.op = "pmodpoly" /\ PModPolyRefused(e.a, e.b, e.m)
  \/ e.op = "pmodpoly" /\ PModPolyMixed(e.a, e.b, e.m)
  \/ e.op = "pgcd" /\ PGcd(e.d, e.a, e.b, e.m)
  \/ e.op = "pcoprime" /\ PCoprime(e.a, e.b, e.m)
  \/ e.op = "pmonic" /\ PMonic(e.d, e.a, e.m)
  \/ e.op = "pred" /\ PRed(e.d, e.a, e.ca, e.cb)
  \/ e.op = "predm" /\ PRedM(e.d, e.a, e.ca, e.cb, ZInt(e.m))
  \/ e.op = "pevalx" /\ PEvalX(e.d, e.a, e.x)
  \/ e.op = "pevaly" /\ PEvalY(e.d, e.a, e.x)
  \/ e.op = "pevalxy" /\ PEvalXY(e.a, e.x, e.y)
  \/ e.op = "mevalxy" /\ MEvalXY(e.a, e.x, e.y)
  \/ e.op = "mevalq" /\ MEvalQ(e.a, e.n)
  \/ e.op = "psubx" /\ PSubstX(e.d, e.a, e.b)
  \/ e.op = "psuby" /\ PSubstY(e.d, e.a, e.b)
  \/ e.op = "tsubx" /\ TSubstX(e.d, e.a, e.b)
  \/ e.op = "tsuby" /\ TSubstY(e.d, e.a, e.b)
  \/ e.op = "msubx" /\ MSubstX(e.d, e.a, e.b)
  \/ e.op = "msuby" /\ MSubstY(e.d, e.a, e.b)
  \/ e.op = "pfrob" /\ PFrob(e.d, e.a, e.n)
  \/ e.op = "pypow" /\ PYPow(e.d, e.a, e.n)
  \/ e.op = "pqpow" /\ PQPow(e.d, e.a, e.n)
  \/ e.op = "tfrob" /\ TFrob(e.d, e.a, e.n)
  \/ e.op = "typow" /\ TYPow(e.d, e.a, e.n)
  \/ e.op = "tqpow" /\ TQPow(e.d, e.a, e.n)
  \/ e.op = "pscalar" /\ PScalar(e.a)
  \/ e.op = "pderx" /\ PDerX(e.d, e.a)
  \/ e.op = "pdery" /\ PDerY(e.d, e.a)
  \/ e.op = "tderx" /\ TDerX(e.d, e.a)
  \/ e.op = "tdery" /\ TDerY(e.d, e.a)
  \/ e.op \in {"pderx", "pdery"} /\ PDerRefused(e.a, IF e.op = "pderx" THEN 1 ELSE 2)
  \/ e.op \in {"tderx", "tdery"} /\ TDerRefused(e.a, IF e.op = "tderx" THEN 1 ELSE 2)
  \/ e.op = "pomit" /\ POmit(e.d, e.n)
  \/ e.op = "ppowq" /\ PPowQ(e.d, e.a, e.n, e.k)
  \/ e.op = "pqcoef" /\ PQCoef(e.d, e.a, e.n)
  \/ e.op = "pvarcoef" /\ PVarCoef(e.a, e.x)
  \/ e.op = "pomit" /\ MixedRefused(e.d)
  \/ e.op = "ppowq" /\ e.n >= 0 /\ MixedRefused(e.a)
  \/ e.op = "pqcoef" /\ MixedRefused(e.a)
  \/ e.op = "pvarcoef" /\ PVarCoefRefused(e.a)
  \/ e.op = "mcmp" /\ MCmpA(e.x, e.y)
  \/ e.op = "vcmp" /\ VCmpA(e.x, e.y)
  \/ e.op = "plead" /\ PLead(e.d, e.a)
  \/ e.op = "pdeg" /\ PDeg(e.a)
  \/ e.op = "pdeg" /\ PDegRefused(e.a)
  \/ e.op = "phas" /\ PHas(e.a)
  \/ e.op = "thas" /\ THas(e.a)
  \/ e.op = "tget" /\ TGet(e.a)
  \/ e.op = "tsame" /\ TSame(e.a, e.b)
  \/ e.op = "piszero" /\ PIsZero(e.a)
  \/ e.op = "pisone" /\ PIsOne(e.a)
  \/ e.op = "peq" /\ PEq(e.a, e.b)
  \/ e.op = "teq" /\ TEq(e.a, e.b)
  \/ e.op = "pstr" /\ PStr(e.a)
  \/ e.op = "tstr" /\ TStr(e.a)
  \/ e.op = "vstr" /\ VStr(e.x)

BuilderStep(e) ==
  \/ e.op = "bnew" /\ BNew
  \/ e.op = "bcoef" /\ BCoef(ZInt(e.n))
  \/ e.op = "bcoefz" /\ BCoef(e.x)
  \/ e.op = "bx" /\ BXpow(e.n)
  \/ e.op = "by" /\ BYpow(e.n)
  \/ e.op = "bq" /\ BQpow(e.n)
  \/ e.op = "bvar" /\ BVar(e.x)
  \/ e.op = "bvarij" /\ BVarIJ(e.x[1], e.x[2])
  \/ e.op = "bbuild" /\ BBuild(e.d)
  \/ e.op = "bpol" /\ BPol(e.d)
  \/ e.op = "bclone" /\ BClone

TraceInit == PMInit /\ BInit /\ TBInit

TraceNext ==
  \/ TBDone /\ UNCHANGED <<P, T, bld, res>>
  \/ LET e == TBEvent
     IN /\ TBNext
        /\ \/ PolyStep(e) /\ UNCHANGED bld /\ TBCheck(Matches(e), e, res')
           \/ BuilderStep(e) /\ TBCheck(Matches(e), e, res')

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
