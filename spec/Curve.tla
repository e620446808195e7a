------------------------------- MODULE Curve -------------------------------
(***************************************************************************)
(* Elliptic curves y^2 = x^3 + a x + b over F_p, p >= 3 prime.             *)
(* A curve is a record [a, b, p] of integers of ZZ (a, b any               *)
(* representatives).  A point is <<>> (infinity, O) or <<x, y>> with       *)
(* 0 <= x, y < p.                                                          *)
(***************************************************************************)
EXTENDS ZZ, SequencesExt

O == <<>>
CM(C, z) == ZMod(z, C.p)
CRhs(C, x) == CM(C, ZAdd(ZMul(ZAdd(ZMul(x, x), C.a), x), C.b))
OnCurve(C, P) == IF P = O THEN TRUE ELSE CM(C, ZMul(P[2], P[2])) = CRhs(C, P[1])
NonSingular(C) == CM(C, ZAdd(ZMul(ZInt(4), ZPow(C.a, 3)), ZMul(ZInt(27), ZPow(C.b, 2)))) # Z0

(* a point as the library writes it: (x, y, z) with any integers x, y; z = 0 *)
(* means infinity.  (z = 1 otherwise.)                                       *)
Norm(C, q) == IF q[3] = Z0 THEN O ELSE <<CM(C, q[1]), CM(C, q[2])>>

(* ---- the group law ---------------------------------------------------------- *)
CNeg(C, P) == IF P = O THEN O ELSE <<P[1], CM(C, ZNeg(P[2]))>>
Third(C, P, Q, m) ==          \* the point with slope m through P and Q, reflected
  LET x == CM(C, ZSub(ZSub(ZMul(m, m), P[1]), Q[1]))
  IN <<x, CM(C, ZSub(ZMul(m, ZSub(P[1], x)), P[2]))>>
CAdd(C, P, Q) ==
  IF P = O THEN Q
  ELSE IF Q = O THEN P
  ELSE IF P[1] # Q[1]
       THEN Third(C, P, Q, ZMul(ZSub(Q[2], P[2]), ZInvMod(CM(C, ZSub(Q[1], P[1])), C.p)))
  ELSE IF P[2] # Q[2] \/ P[2] = Z0 THEN O
  ELSE Third(C, P, P, ZMul(ZAdd(ZMul(ZInt(3), ZMul(P[1], P[1])), C.a),
                           ZInvMod(CM(C, ZMul(ZInt(2), P[2])), C.p)))

\* n P by halving n; MCCurve checks that this is the n-fold sum
RECURSIVE CMulNat(_, _, _)
CMulNat(C, P, n) ==
  IF n = Z0 THEN O
  ELSE LET h == CMulNat(C, P, ZFloorDiv(n, ZInt(2)))
           d == CAdd(C, h, h)
       IN IF ZEven(n) THEN d ELSE CAdd(C, d, P)
CMul(C, P, n) == IF ZSign(n) < 0 THEN CNeg(C, CMulNat(C, P, ZNeg(n))) ELSE CMulNat(C, P, n)
RECURSIVE CMulDef(_, _, _)
CMulDef(C, P, n) == IF n = 0 THEN O ELSE CAdd(C, CMulDef(C, P, n - 1), P)

(* ---- small fields: all points ------------------------------------------------- *)
Field(C) == {ZInt(i) : i \in 0..(ZToInt(C.p) - 1)}
Points(C) == {O} \cup UNION {LET r == CRhs(C, x) IN {<<x, y>> : y \in {y \in Field(C) : CM(C, ZMul(y, y)) = r}} : x \in Field(C)}
RECURSIVE OrderFrom(_, _, _, _)
OrderFrom(C, P, Q, n) == IF Q = O THEN n ELSE OrderFrom(C, P, CAdd(C, Q, P), n + 1)
Order(C, P) == OrderFrom(C, P, P, 1)
Torsion(C, pts, n) == {P \in pts : CMul(C, P, n) = O}

(* ---- j-invariant: 1728 * 4 a^3 / (4 a^3 + 27 b^2) -------------------------------- *)
JInv(C) ==
  LET n == ZMul(ZInt(4), ZPow(C.a, 3))
      d == CM(C, ZAdd(n, ZMul(ZInt(27), ZPow(C.b, 2))))
  IN CM(C, ZMul(ZMul(ZInt(1728), n), ZInvMod(d, C.p)))

(* ---- Velu: quotient by a finite subgroup K of points -------------------------------- *)
VeluT(C, P) == IF P[2] = Z0 THEN ZAdd(ZMul(ZInt(3), ZMul(P[1], P[1])), C.a)
               ELSE ZAdd(ZMul(ZInt(6), ZMul(P[1], P[1])), ZMul(ZInt(2), C.a))
VeluU(C, P) == ZMul(ZInt(4), ZMul(P[2], P[2]))
\* one representative of every pair {P, -P} of K without O
VeluReps(C, K) == {P \in K \ {O} : ZLe(P[2], CNeg(C, P)[2])}
VeluSum(C, S, F(_)) == FoldSet(LAMBDA P, acc : ZAdd(acc, F(P)), Z0, S)
Velu(C, K) ==
  LET S == VeluReps(C, K)
      t == VeluSum(C, S, LAMBDA P : VeluT(C, P))
      w == VeluSum(C, S, LAMBDA P : ZAdd(VeluU(C, P), ZMul(P[1], VeluT(C, P))))
  IN [a |-> CM(C, ZSub(C.a, ZMul(ZInt(5), t))), b |-> CM(C, ZSub(C.b, ZMul(ZInt(7), w))), p |-> C.p]

(* ---- trace of Frobenius by counting (machine integers, small p) ----------------------- *)
RECURSIVE CountFrom(_, _, _, _)
CountFrom(a, b, p, x) ==
  IF x = p THEN 1
  ELSE LET r == (((((x * x) % p) + a) * x) + b) % p
       IN Cardinality({y \in 0..(p - 1) : (y * y) % p = r}) + CountFrom(a, b, p, x + 1)
CountN(a, b, p) == CountFrom(a % p, b % p, p, 0)

(* ---- secp256k1 --------------------------------------------------------------------------- *)
SecpP == ZSub(ZSub(ZPow(ZInt(2), 256), ZPow(ZInt(2), 32)), ZInt(977))
SecpGx == <<1, 9240, 1672, 3891, 7360, 18, 1755, 7594, 5377, 6034, 6250, 3432, 1685, 8895, 7871, 6695, 7343, 2227, 2630, 5066, 5>>
SecpGy == <<1, 2424, 3748, 7573, 4335, 3890, 2759, 9243, 8065, 2733, 4471, 4318, 5070, 5130, 8308, 9780, 8816, 2075, 5100, 2670, 3>>
SecpG == <<SecpGx, SecpGy>>
SecpN == <<1, 4337, 6149, 5181, 3141, 516, 3826, 4904, 7907, 5642, 2837, 785, 6879, 5008, 7098, 4235, 6195, 3731, 892, 5792, 11>>
SecpCurve == [a |-> Z0, b |-> ZInt(7), p |-> SecpP]
=============================================================================
