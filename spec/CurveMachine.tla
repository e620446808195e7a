---------------------------- MODULE CurveMachine ----------------------------
(***************************************************************************)
(* The curve part of the library: a current curve, its list of points (as  *)
(* a set; present only when the curve was enumerated) and point registers. *)
(* Points of the machine are <<>> or <<x, y>> reduced modulo p.            *)
(***************************************************************************)
EXTENDS Curve, Render

VARIABLES crv,      \* the curve [a, b, p]
          pts,      \* its points, or {} when they were not enumerated
          Q,        \* point registers 0..5
          cres      \* the last observation
cvars == <<crv, pts, Q, cres>>

QReg == 0..5
NoCurve == [a |-> Z0, b |-> Z1, p |-> ZInt(3)]
CMInit == crv = NoCurve /\ pts = {} /\ Q = [i \in QReg |-> O] /\ cres = <<"none">>
CReset == crv' = NoCurve /\ pts' = {} /\ Q' = [i \in QReg |-> O] /\ cres' = <<"none">>

Keep == UNCHANGED <<crv, pts, Q>>
CObs(kind, v) == cres' = <<kind, v>> /\ Keep
CRefuse == cres' = <<"refused">> /\ Keep
SetQ(d, R) == /\ Q' = IF d = -1 THEN Q ELSE [Q EXCEPT ![d] = R]
              /\ cres' = <<"point", R>>
              /\ UNCHANGED <<crv, pts>>

\* construction enumerates the points; the raw construction does not
ENew(a, b, p) == LET C == [a |-> a, b |-> b, p |-> p]
                 IN /\ crv' = C /\ pts' = Points(C) /\ Q' = [i \in QReg |-> O]
                    /\ cres' = <<"curve", C, pts'>>
ERaw(a, b, p) == LET C == [a |-> a, b |-> b, p |-> p]
                 IN /\ crv' = C /\ pts' = {} /\ Q' = [i \in QReg |-> O]
                    /\ cres' = <<"curve", C, {}>>
\* a modulus that is not prime is refused; f is a divisor that shows it
ProperDivisor(f, p) == ZLt(Z1, f) /\ ZLt(f, p) /\ ZMod(p, f) = Z0
ENewRefused(p, f) == (ZLe(p, Z1) \/ ProperDivisor(f, p)) /\ CRefuse
ESecp == /\ crv' = SecpCurve /\ pts' = {} /\ Q' = [i \in QReg |-> IF i = 0 THEN SecpG ELSE O]
         /\ cres' = <<"secp">>
\* enumerating again changes nothing
ECreate == /\ pts' = Points(crv) /\ UNCHANGED <<crv, Q>>
           /\ cres' = <<"pts", pts'>>

\* registers hold what was loaded, on the curve or not
ELoad(d, q) == SetQ(d, Norm(crv, q))
EInf(d) == SetQ(d, O)

EOn(P) == CObs("bool", OnCurve(crv, P))
EIsInf(P) == CObs("bool", P = O)
ECanon(d, P) == SetQ(d, P)
EPlus(d, P, R) == IF OnCurve(crv, P) /\ OnCurve(crv, R)
                  THEN SetQ(d, CAdd(crv, P, R)) ELSE CRefuse
ENeg(d, P) == OnCurve(crv, P) /\ SetQ(d, CNeg(crv, P))
EMul(d, P, n) == OnCurve(crv, P) /\ SetQ(d, CMul(crv, P, n))
EOrder(P) == OnCurve(crv, P) /\ CObs("num", ZInt(Order(crv, P)))
EDivP(n) == pts # {} /\ CObs("pts", Torsion(crv, pts, n))
EJ == NonSingular(crv) /\ CObs("num", JInv(crv))
EIso(n) == /\ pts # {} /\ NonSingular(crv) /\ ZSign(n) > 0
           /\ CObs("iso", Velu(crv, Torsion(crv, pts, n)))

\* the quotient curve becomes the current one: a constructed curve like any other
EIsoSet(n) == /\ pts # {} /\ NonSingular(crv) /\ ZSign(n) > 0
              /\ crv' = Velu(crv, Torsion(crv, pts, n)) /\ pts' = Points(crv') /\ Q' = [i \in QReg |-> O]
              /\ cres' = <<"curve", crv', pts'>>
\* a copy is the same curve
EClone == /\ UNCHANGED <<crv, pts, Q>> /\ cres' = <<"curve", crv, pts>>

\* tables over all points, in the order the points were listed (seq)
IsListing(seq) == /\ Len(seq) = Cardinality(pts)
                  /\ {seq[i] : i \in 1..Len(seq)} = pts

EStr == pts # {} /\ NonSingular(crv) /\ CObs("str", RCurve(crv.a, crv.b, crv.p, Cardinality(pts), JInv(crv)))
=============================================================================
