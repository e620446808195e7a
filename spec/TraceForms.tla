----------------------------- MODULE TraceForms -----------------------------
(* Checks recorded calls of the modular-form functions against QSeries and   *)
(* ModPoly.  N: order to which the specification's series are computed.      *)
EXTENDS ModPoly, TraceBase
CONSTANT N
VARIABLE res
tvars == <<res, l>>

CE4 == E4(N)
CDelta == Delta(N)
CInv == SInv(CDelta)
CJ1 == SMul(SPow(CE4, 3), CInv)

Val(f) == res' = <<"poly", f>>
\* the order of a modular polynomial is a prime
NotPrime(n) == ~(n >= 2 /\ \A d \in 2..(IF n < 2500 THEN 49 ELSE 46340) : d >= n \/ n % d # 0)
Call(e) ==
  \/ e.op \in {"modpoly", "smpoly", "smpolyq", "smlist"} /\ NotPrime(e.n) /\ res' = <<"refused">>
  \/ e.op = "sigma" /\ (e.n < 1 \/ e.k < 0) /\ res' = <<"val", Z0>>
  \/ e.op = "sigma" /\ e.n >= 1 /\ e.k >= 0 /\ res' = <<"val", IF e.n < 300 THEN Sigma(e.n, e.k) ELSE SigmaBig(e.n, e.k)>>
  \/ e.op = "e4" /\ e.n \in 0..N /\ Val(SPoly(STrunc(CE4, e.n)))
  \/ e.op = "delta" /\ e.n \in 0..N /\ Val(SPoly(STrunc(CDelta, e.n)))
  \/ e.op = "deltainv" /\ e.n \in 0..N /\ Val(SPoly(STrunc(CInv, e.n)))
  \/ e.op = "j1" /\ e.n \in 0..N /\ Val(SPoly(STrunc(CJ1, e.n)))
  \/ e.op = "jq" /\ e.n + 1 \in 0..N /\ Val(JPolyOf(STrunc(CJ1, e.n + 1)))
  \/ e.op = "modpoly" /\ ~NotPrime(e.n) /\ NegOrder(e.n) + e.n <= N /\ res' = <<"modpoly">>
  \/ e.op = "smpoly" /\ ~NotPrime(e.n) /\ Val(UnkPoly(e.n))
  \/ e.op = "smpolyq" /\ ~NotPrime(e.n) /\ NegOrder(e.n) <= N /\ Val(UnkPolyQ(e.n, CJ1))
  \/ e.op = "smlist" /\ ~NotPrime(e.n) /\ NegOrder(e.n) <= N /\ res' = <<"list", UnkList(e.n, CJ1)>>

Matches(e) ==
  IF res'[1] = "refused" THEN e.st = "panic"
  ELSE
  /\ e.st = "ok"
  /\ CASE res'[1] = "val" -> e.r = res'[2]
       [] res'[1] = "poly" -> Canonical(e.r) /\ Decode(e.r) = res'[2]
       [] res'[1] = "list" -> /\ Len(e.r) = Len(res'[2])
                              /\ \A i \in 1..Len(e.r) : Canonical(e.r[i]) /\ Decode(e.r[i]) = res'[2][i]
       [] res'[1] = "modpoly" -> Canonical(e.r) /\ IsModPoly(Decode(e.r), e.n, CJ1, e.n)

TraceInit == res = <<"none">> /\ TBInit
TraceNext ==
  \/ TBDone /\ UNCHANGED res
  \/ LET e == TBEvent IN TBNext /\ Call(e) /\ TBCheck(Matches(e), e, res')
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
