------------------------------ MODULE TraceNum ------------------------------
(* Checks recorded calls of the integer services against NumTheory.          *)
EXTENDS NumTheory, TraceBase
VARIABLE res
tvars == <<res, l>>

Call(e) ==
  \/ e.op = "zpow" /\ e.n >= 0 /\ res' = <<"val", ZPow(e.x, e.n)>>
  \/ e.op = "zpowz" /\ ZUnit(e.x) /\ ZSign(e.n) >= 0 /\ res' = <<"val", ZPowUnit(e.x, e.n)>>
  \/ e.op = "zpowmod" /\ ZSign(e.n) >= 0 /\ ZSign(e.m) > 0 /\ res' = <<"val", ZPowMod(e.x, e.n, e.m)>>
  \/ e.op = "zinv" /\ ~ZLt(Z1, e.m) /\ res' = <<"refused">>
  \/ e.op = "zinv" /\ ZLt(Z1, e.m) /\ ZMod(e.x, e.m) # Z0 /\ res' = <<"val", ZInvMod(e.x, e.m)>>
  \/ e.op = "egcd" /\ res' = <<"bezout">>
  \/ e.op = "crt" /\ CrtDomain(e.x) /\ res' = <<"crt">>
  \/ e.op = "solve" /\ "k" \in DOMAIN e /\ Kernel(e.x, e.k) /\ res' = <<"refused">>
  \/ e.op = "solve" /\ "s" \in DOMAIN e /\ LinearDomain(e.x, e.s) /\ res' = <<"solution", e.s>>
  \/ e.op = "svcount" /\ res' = IF IsPrimeN(e.n) THEN <<"val", UCount(e.n)>> ELSE <<"refused">>
  \/ e.op = "svfrom" /\ res' = IF IsPrimeN(e.n) /\ ZSign(e.x) >= 0 /\ ZLt(e.x, ZInt(UCount(e.n)))
                               THEN <<"val", UUnknown(e.n, ZToInt(e.x))>> ELSE <<"refused">>
  \/ e.op = "svidx" /\ res' = IF ~IsPrimeN(e.n) THEN <<"refused">>
                              ELSE IF Len(e.x) = 3 /\ e.x[3] = 1 THEN <<"val", -1>>      \* the empty unknown
                              ELSE IF UValid(e.n, e.x) THEN <<"val", UIndex(e.n, e.x[1], e.x[2])>>
                              ELSE <<"refused">>
  \/ e.op = "svcountz" /\ IsPrimeN(e.n) /\ res' = <<"val", ZUCount(e.n)>>
  \/ e.op = "svidxz" /\ IsPrimeN(e.n) /\ UValid(e.n, e.x) /\ res' = <<"val", ZUIndex(e.n, e.x[1], e.x[2])>>
  \* UIndex is one to one (MCNum), so the unknown with this number is the only one
  \/ e.op = "svfromz" /\ IsPrimeN(e.n) /\ ZSign(e.x) >= 0 /\ ZLt(e.x, ZUCount(e.n)) /\ res' = <<"number", e.x>>
Matches(e) ==
  IF res'[1] = "refused" THEN e.st = "panic"
  ELSE /\ e.st = "ok"
       /\ CASE res'[1] = "val" -> e.r = res'[2]
            [] res'[1] = "number" -> UValid(e.n, e.r) /\ ZUIndex(e.n, e.r[1], e.r[2]) = res'[2]
            [] res'[1] = "bezout" -> BezoutOk(e.x, e.y, e.r[1], e.r[2], e.r[3])
            [] res'[1] = "crt" -> CrtOk(e.x, e.r[1], e.r[2])
            [] res'[1] = "solution" -> LinearOk(res'[2], e.r)

TraceInit == res = <<"none">> /\ TBInit
TraceNext ==
  \/ TBDone /\ UNCHANGED res
  \/ LET e == TBEvent IN TBNext /\ Call(e) /\ TBCheck(Matches(e), e, res')
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
