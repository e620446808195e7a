----------------------------- MODULE TraceCurve -----------------------------
(***************************************************************************)
(* Checks recorded executions of the curve part against CurveMachine.  All *)
(* numbers of these scripts are integers of ZZ.  The order in which the    *)
(* library lists points is not specified: lst keeps the recorded listing   *)
(* (checked to be one of pts), ldiv that of the last division points.      *)
(***************************************************************************)
EXTENDS CurveMachine, TraceBase

VARIABLES lst, ldiv
tvars == <<crv, pts, Q, cres, lst, ldiv, l>>

NormList(C, rl) == [i \in 1..Len(rl) |-> Norm(C, rl[i])]
\* a recorded listing shows every point of the set S exactly once, with reduced coordinates
Lists(C, rl, S) ==
  /\ Len(rl) = Cardinality(S)
  /\ {Norm(C, rl[i]) : i \in 1..Len(rl)} = S
  /\ \A i \in 1..Len(rl) : rl[i][3] = Z0 \/ (rl[i][3] = Z1 /\ <<rl[i][1], rl[i][2]>> = Norm(C, rl[i]))

Congr(C, x, y) == CM(C, x) = CM(C, y)
Matches(e) ==
  IF cres'[1] = "refused" THEN e.st = "panic"
  ELSE /\ e.st = "ok"
       /\ CASE cres'[1] = "point" -> Norm(crv', e.r) = cres'[2]
            [] cres'[1] = "curve" -> /\ Congr(crv', e.r[1], crv'.a) /\ Congr(crv', e.r[2], crv'.b) /\ e.r[3] = crv'.p
                                     /\ e.r[5] = Cardinality(pts')
                                     /\ Lists(crv', e.r[4], pts')
            [] cres'[1] = "pts" -> IF e.op = "ecreate" THEN Lists(crv, e.r[1], cres'[2]) /\ e.r[2] = Cardinality(cres'[2])
                                   ELSE Lists(crv, e.r, cres'[2])
            [] cres'[1] = "iso" -> /\ Congr(crv, e.r[1], cres'[2].a) /\ Congr(crv, e.r[2], cres'[2].b)
                                   /\ e.r[3] = crv.p
                                   /\ e.r[4] = Cardinality(pts)
            [] cres'[1] = "secp" -> /\ Congr(crv', e.r[1], crv'.a) /\ Congr(crv', e.r[2], crv'.b) /\ e.r[3] = crv'.p
                                    /\ e.r[4][3] # Z0 /\ <<e.r[4][1], e.r[4][2]>> = SecpG /\ e.r[5]
            [] OTHER -> e.r = cres'[2]

(* ---- whole tables, in the order of lst ------------------------------------------ *)
NL == Len(lst)
TableOk(e) ==
  CASE e.op = "etable" -> \A i \in 1..NL, j \in 1..NL : Norm(crv, e.r[i][j]) = CAdd(crv, lst[i], lst[j])
    [] e.op = "emultable" -> \A i \in 1..NL, k \in 1..(e.hi - e.lo + 1) :
                                Norm(crv, e.r[i][k]) = CMul(crv, lst[i], ZInt(e.lo + k - 1))
    [] e.op = "eorders" -> \A i \in 1..NL : /\ e.r[i] = ZInt(Order(crv, lst[i]))
                                            /\ NL % Order(crv, lst[i]) = 0
    [] e.op = "eons" -> \A i \in 1..(e.hi - e.lo + 1), j \in 1..(e.hi - e.lo + 1) :
                           e.r[i][j] = OnCurve(crv, Norm(crv, <<ZInt(e.lo + i - 1), ZInt(e.lo + j - 1), Z1>>))
Tables == {"etable", "emultable", "eorders", "eons"}

D(e) == IF "d" \in DOMAIN e THEN e.d ELSE -1
CurveStep(e) ==
  \/ e.op = "enew" /\ "f" \notin DOMAIN e /\ ENew(e.ca, e.cb, e.m)
  \/ e.op = "enew" /\ "f" \in DOMAIN e /\ ENewRefused(e.m, e.f)
  \/ e.op = "eraw" /\ ERaw(e.ca, e.cb, e.m)
  \/ e.op = "esecp" /\ ESecp
  \/ e.op = "ecreate" /\ ECreate
  \/ e.op = "eload" /\ ELoad(e.d, e.x)
  \/ e.op = "einf" /\ EInf(e.d)
  \/ e.op = "eon" /\ EOn(Q[e.a])
  \/ e.op = "eisinf" /\ EIsInf(Q[e.a])
  \/ e.op = "ecanon" /\ ECanon(D(e), Q[e.a])
  \/ e.op = "eplus" /\ EPlus(D(e), Q[e.a], Q[e.b])
  \/ e.op = "eneg" /\ ENeg(D(e), Q[e.a])
  \/ e.op = "emul" /\ EMul(D(e), Q[e.a], e.n)
  \/ e.op = "eorder" /\ EOrder(Q[e.a])
  \/ e.op = "edivp" /\ EDivP(e.n)
  \/ e.op = "ej" /\ EJ
  \/ e.op = "eiso" /\ EIso(e.n)
  \/ e.op = "eisoset" /\ EIsoSet(e.n)
  \/ e.op = "eclone" /\ EClone
  \/ e.op = "estr" /\ EStr
  \/ e.op = "eptstr" /\ CObs("str", RPoint(IF e.a[3] = Z0 THEN <<>> ELSE <<e.a[1], e.a[2]>>))
  \/ e.op = "edivstr" /\ CObs("str", RPoints(ldiv))

TraceInit == CMInit /\ lst = <<>> /\ ldiv = <<>> /\ TBInit

\* a listing is only kept when the library returned one
Recorded(e) ==
  /\ lst' = IF cres'[1] = "refused" THEN lst
            ELSE IF e.op \in {"enew", "eraw", "eisoset", "eclone"} THEN NormList(crv', e.r[4])
            ELSE IF e.op = "esecp" THEN <<>>
            ELSE IF e.op = "ecreate" THEN NormList(crv, e.r[1]) ELSE lst
  /\ ldiv' = IF e.op = "edivp" THEN NormList(crv, e.r) ELSE ldiv

TraceNext ==
  \/ TBDone /\ UNCHANGED <<crv, pts, Q, cres, lst, ldiv>>
  \/ LET e == TBEvent
     IN /\ TBNext
        /\ \/ e.op \in Tables /\ CObs("table", e.op) /\ UNCHANGED <<lst, ldiv>>
              /\ TBCheck(e.st = "ok" /\ TableOk(e), e, "the specification's table")
           \/ CurveStep(e) /\ TBCheck(Matches(e), e, cres') /\ Recorded(e)

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
