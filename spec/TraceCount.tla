----------------------------- MODULE TraceCount -----------------------------
(* Checks recorded runs of the point-counting routines against Counting.     *)
EXTENDS Counting, TraceBase
VARIABLE res
tvars == <<res, l>>
C(e) == [a |-> e.ca, b |-> e.cb, p |-> e.m]
Call(e) ==
  \/ e.op = "schoof" /\ e.n >= 5 /\ NonSingular([a |-> e.ca, b |-> e.cb, p |-> ZInt(e.n)])
     /\ res' = <<"schoof", SchoofPairs(e.ca, e.cb, e.n)>>
  \/ e.op = "sea" /\ NonSingular(C(e)) /\ ZInt(e.n) # e.m
     /\ LET R == Roots(PhiAt(e.n, JInv(C(e)), e.m), e.m)
        IN res' = <<"sea", Sparse(RootPoly(R, e.m)), Cardinality(R), R # {}, Least(R, 2)>>
Matches(e) ==
  /\ e.st = "ok"
  /\ CASE res'[1] = "schoof" ->
            /\ e.r[1] = res'[2]
            \* combined by Chinese remaindering: the trace modulo the product
            /\ e.r[2][1] = ProductN([i \in 1..Len(res'[2]) |-> res'[2][i][1]])
            /\ (e.r[2][2] - Trace(e.ca, e.cb, e.n)) % e.r[2][1] = 0
       [] res'[1] = "sea" ->
            /\ Canonical(e.r[1]) /\ Decode(e.r[1]) = res'[2]
            /\ e.r[2] = res'[3] /\ e.r[3] = res'[4] /\ e.r[4] = res'[5]
TraceInit == res = <<"none">> /\ TBInit
TraceNext ==
  \/ TBDone /\ UNCHANGED res
  \/ LET e == TBEvent IN TBNext /\ Call(e) /\ TBCheck(Matches(e), e, res')
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
