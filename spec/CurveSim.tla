------------------------------ MODULE CurveSim ------------------------------
(***************************************************************************)
(* Behaviours of CurveMachine for replay against the library (tlc          *)
(* -simulate, as PolySim): histories of several curves, points and their   *)
(* multiples, where every operand is the result of an earlier step or a    *)
(* point given by arbitrary representatives.                               *)
(***************************************************************************)
EXTENDS CurveMachine, Json, TLC

CONSTANTS Depth, Enumerate, MaxP
VARIABLES hist, n
svars == <<crv, pts, Q, cres, hist, n>>

R(S) == RandomElement(S)
Small == {3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43} \cap 1..MaxP
\* around the sizes of machine words, and beyond
Big == {ZInt(65537), ZInt(2147483629), ZSub(ZPow(ZInt(2), 31), Z1), ZAdd(ZPow(ZInt(2), 32), ZInt(15)), ZSub(ZPow(ZInt(2), 61), Z1),
        ZSub(ZPow(ZInt(2), 64), ZInt(59)), ZSub(ZPow(ZInt(2), 127), Z1), ZSub(ZPow(ZInt(2), 255), ZInt(19)), SecpP}
RandMod(p) == ZMod(ZMul(ZInt(R(0..2147483646)), ZAdd(ZMul(ZPow(ZInt(R(2..9973)), R(0..20)), ZInt(R(1..1000000))), ZInt(R(0..12)))), p)
Rep(z, p) == IF R(1..2) = 1 THEN z ELSE ZAdd(z, ZMul(p, ZMul(ZInt(R(-3..3)), ZPow(ZInt(10), R({0, 0, 0, 5, 30})))))
RandNum(p) ==
  CASE R(1..5) = 1 -> ZMul(ZInt(R({-1, 1})), ZMul(ZPow(ZInt(R(2..9973)), R(1..30)), ZInt(R(1..99))))
    [] OTHER -> ZInt(R(-60..60))

Try(o, A) == A /\ hist' = Append(hist, o)
\* several drawings in one step: p first, then a, x, y, and b such that (x, y) is on the curve
NewCurve(o, p, a, x, y, New(_, _, _)) ==
  \E b \in {ZMod(ZSub(ZMul(y, y), ZMul(x, ZAdd(ZMul(x, x), a))), p)} :
  \E a2 \in {Rep(a, p)}, b2 \in {Rep(b, p)} :
    NonSingular([a |-> a, b |-> b, p |-> p]) /\ Try([op |-> o, ca |-> a2, cb |-> b2, m |-> p, big |-> 1], New(a2, b2, p))

APoint(p) ==    \* any integers; seldom a point of the curve in a large field
  <<Rep(RandMod(p), p), Rep(RandMod(p), p), Z1>>
OfPts == IF pts \ {O} = {} THEN <<Z0, Z1, Z0>>
         ELSE LET A == R(pts \ {O}) IN <<Rep(A[1], crv.p), Rep(A[2], crv.p), Z1>>
OfQ(i) == IF Q[i] = O THEN <<Z0, Z1, Z0>> ELSE <<Rep(Q[i][1], crv.p), Rep(Q[i][2], crv.p), Z1>>

Fresh(d) == \E p \in {IF Enumerate THEN ZInt(R(Small)) ELSE R(Big)} : \E a \in {RandMod(p)}, x \in {RandMod(p)}, y \in {RandMod(p)} :
              IF Enumerate /\ R(1..4) # 1 THEN NewCurve("enew", p, a, x, y, ENew) ELSE NewCurve("eraw", p, a, x, y, ERaw)
\* a point on the curve without enumerating: (x, y) with b chosen, so a raw curve comes with one
FreshWith(d) == \E p \in {R(Big)} : \E a \in {RandMod(p)}, x \in {RandMod(p)}, y \in {RandMod(p)} :
  \E b \in {ZMod(ZSub(ZMul(y, y), ZMul(x, ZAdd(ZMul(x, x), a))), p)} :
    /\ NonSingular([a |-> a, b |-> b, p |-> p])
    /\ crv' = [a |-> a, b |-> b, p |-> p] /\ pts' = {} /\ Q' = [i \in QReg |-> IF i = d THEN <<x, y>> ELSE O] /\ cres' = <<"point", <<x, y>>>>
    /\ hist' = hist \o <<[op |-> "eraw", ca |-> a, cb |-> b, m |-> p, big |-> 1], [op |-> "eload", d |-> d, x |-> <<x, y, Z1>>]>>

Do(k, d, a, b, z) ==
  CASE k = 1  -> IF Enumerate THEN Fresh(d) ELSE FreshWith(d)
    [] k = 2  -> \E q \in {OfPts} : Try([op |-> "eload", d |-> d, x |-> q], ELoad(d, q))
    [] k = 3  -> \E q \in {OfQ(a)} : Try([op |-> "eload", d |-> d, x |-> q], ELoad(d, q))
    [] k = 4  -> R(1..6) = 1 /\ \E q \in {APoint(crv.p)} : Try([op |-> "eload", d |-> d, x |-> q], ELoad(d, q))
    [] k = 5  -> Try([op |-> "eplus", d |-> d, a |-> a, b |-> b], EPlus(d, Q[a], Q[b]))
    [] k = 6  -> Try([op |-> "eplus", d |-> d, a |-> a, b |-> a], EPlus(d, Q[a], Q[a]))
    [] k = 7  -> Try([op |-> "eneg", d |-> d, a |-> a], ENeg(d, Q[a]))
    [] k = 8  -> Try([op |-> "emul", d |-> d, a |-> a, n |-> z], EMul(d, Q[a], z))
    [] k = 9  -> Try([op |-> "eon", a |-> a], EOn(Q[a]))
    [] k = 10 -> Try([op |-> "eisinf", a |-> a], EIsInf(Q[a]))
    [] k = 11 -> Try([op |-> "ecanon", d |-> d, a |-> a], ECanon(d, Q[a]))
    [] k = 12 -> Enumerate /\ Try([op |-> "eorder", a |-> a], EOrder(Q[a]))
    [] k = 13 -> pts # {} /\ Try([op |-> "edivp", n |-> z], EDivP(z))
    [] k = 14 -> ZLt(ZInt(3), crv.p) /\ Try([op |-> "ej"], EJ)
    [] k = 15 -> ZLt(ZInt(3), crv.p) /\ \E m \in {ZInt(R(1..9))} : Try([op |-> "eiso", n |-> m], EIso(m))
    [] k = 16 -> ZLt(ZInt(3), crv.p) /\ \E m \in {ZInt(R(1..9))} : Try([op |-> "eisoset", n |-> m], EIsoSet(m))
    [] k = 17 -> Enumerate /\ Try([op |-> "ecreate"], ECreate)
    [] k = 18 -> Try([op |-> "einf", d |-> d], EInf(d))
    [] k = 19 -> Try([op |-> "eclone"], EClone)
    [] k = 20 -> R(1..3) = 1 /\ Try([op |-> "eneg", d |-> d, a |-> a], ENeg(d, Q[a]))

\* more of the group law than of the rest
Weights == <<1, 2, 2, 2, 3, 4, 5, 5, 5, 5, 6, 6, 7, 7, 8, 8, 8, 9, 10, 11, 12, 12, 13, 14, 15, 16, 17, 18, 19>>
SimInit == CMInit /\ hist = <<[op |-> "reset"]>> /\ n = 0
SimNext == /\ n < Depth
           /\ n' = n + 1
           /\ \/ \E k \in {IF Len(hist) = 1 THEN 1 ELSE IF n < 4 THEN 2 ELSE Weights[R(1..Len(Weights))]},
                    d \in {R(QReg)}, a \in {R(QReg)}, b \in {R(QReg)}, z \in {RandNum(0)} : Do(k, d, a, b, z)
              \/ UNCHANGED <<crv, pts, Q, cres, hist>>
SimSpec == SimInit /\ [][SimNext]_svars
\* every register that resulted from curve points is on the curve
TypeOk == \A i \in QReg : Q[i] = O \/ (Len(Q[i]) = 2 /\ \A c \in 1..2 : ZLe(Z0, Q[i][c]) /\ ZLt(Q[i][c], crv.p))
SimPrint == n = Depth => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
