------------------------------ MODULE TraceDiv ------------------------------
(* Checks recorded division polynomials against DivPoly.  tab holds psi_0 ..  *)
(* for the current coefficients ab.                                           *)
EXTENDS DivPoly, TraceBase
VARIABLES res, ab, tab
tvars == <<res, ab, tab, l>>
Max2(x, y) == IF x > y THEN x ELSE y
Need(e) == e.n + 2
Refused(e) == e.n < (IF e.op = "psi" THEN 0 ELSE 1)
Call(e) ==
  /\ e.n >= IF e.op = "psi" THEN 0 ELSE 1
  /\ ab' = <<e.ca, e.cb>>
  /\ tab' = IF ab' = ab /\ Len(tab) > Need(e) THEN tab
            ELSE PsiTableFrom(IF ab' = ab THEN tab ELSE <<>>, e.ca, e.cb, Need(e))
  /\ res' = <<"poly", CASE e.op = "psi" -> PsiOf(tab', e.n)
                        [] e.op = "phi" -> PhiPoly(tab', e.ca, e.cb, e.n)
                        [] e.op = "omega" -> OmegaPoly(tab', e.ca, e.cb, e.n)>>
Matches(e) == IF Refused(e) THEN e.st = "panic" ELSE e.st = "ok" /\ Canonical(e.r) /\ Decode(e.r) = res'[2]
TraceInit == res = <<"none">> /\ ab = <<>> /\ tab = <<>> /\ TBInit
TraceNext ==
  \/ TBDone /\ UNCHANGED <<res, ab, tab>>
  \/ LET e == TBEvent IN TBNext /\ (IF Refused(e) THEN res' = <<"refused">> /\ UNCHANGED <<ab, tab>> ELSE Call(e)) /\ TBCheck(Matches(e), e, res')
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
