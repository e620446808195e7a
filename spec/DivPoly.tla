------------------------------- MODULE DivPoly -------------------------------
(***************************************************************************)
(* Division polynomials of y^2 = x^3 + a x + b as polynomials of y-degree  *)
(* at most 1, by the standard recurrences.                                 *)
(***************************************************************************)
EXTENDS Poly

XT(k, c) == TermPoly(<<<<k, 0, 0, -1, -1>>, c>>)
XYT(k, c) == TermPoly(<<<<k, 1, 0, -1, -1>>, c>>)
ZI(n) == ZInt(n)
Psi2 == XYT(0, ZI(2))
Psi3(a, b) == PAdd2(PAdd2(XT(4, ZI(3)), XT(2, ZMul(ZI(6), a))), PAdd2(XT(1, ZMul(ZI(12), b)), XT(0, ZNeg(ZMul(a, a)))))
Psi4(a, b) ==
  PAdd2(PAdd2(XYT(6, ZI(4)), XYT(4, ZMul(ZI(20), a))),
  PAdd2(PAdd2(XYT(3, ZMul(ZI(80), b)), XYT(2, ZMul(ZI(-20), ZMul(a, a)))),
        PAdd2(XYT(1, ZMul(ZI(-16), ZMul(a, b))),
              XYT(0, ZSub(ZMul(ZI(-32), ZMul(b, b)), ZMul(ZI(4), ZPow(a, 3)))))))

TwoY == <<<<0, 1, 0, -1, -1>>, ZI(2)>>
FourY == <<<<0, 1, 0, -1, -1>>, ZI(4)>>
\* exact division by a term; NotExact is no polynomial
NotExact == TermPoly(<<<<0, 0, 0, -2, -2>>, Z1>>)      \* not a polynomial of the ring
ExactDiv(f, t) == LET g == PDivTerm(f, t) IN IF PMul2(g, TermPoly(t)) = f THEN g ELSE NotExact

\* ps[i+1] = psi_i for i < Len(ps); the next one
NextPsi(ps, a, b) ==
  LET n == Len(ps)
      psi(i) == ps[i + 1]
      R(f) == Reduce(f, a, b)
      sq(f) == PMul2(f, f)
      cube(f) == R(PMul2(R(sq(f)), f))
  IN CASE n = 0 -> PZero
       [] n = 1 -> POne
       [] n = 2 -> Psi2
       [] n = 3 -> Psi3(a, b)
       [] n = 4 -> Psi4(a, b)
       [] n > 4 /\ n % 2 = 1 ->
            LET m == (n - 1) \div 2
            IN PSub2(R(PMul2(psi(m + 2), cube(psi(m)))), R(PMul2(psi(m - 1), cube(psi(m + 1)))))
       [] OTHER ->
            LET m == n \div 2
                d == PSub2(PMul2(psi(m + 2), sq(psi(m - 1))), PMul2(psi(m - 2), sq(psi(m + 1))))
            \* y divides one factor for every m (y^2 must not be reduced before the division)
            IN R(ExactDiv(PMul2(psi(m), d), TwoY))
RECURSIVE PsiTableFrom(_, _, _, _)
PsiTableFrom(ps, a, b, n) == IF Len(ps) = n + 1 THEN ps ELSE PsiTableFrom(Append(ps, NextPsi(ps, a, b)), a, b, n)
PsiTable(a, b, n) == PsiTableFrom(<<>>, a, b, n)
PsiOf(ps, i) == IF i = -1 THEN PNeg1(POne) ELSE ps[i + 1]

\* ps has at least psi_0 .. psi_(n+2)
PhiPoly(ps, a, b, n) ==
  Reduce(PSub2(PMul2(PX, PMul2(PsiOf(ps, n), PsiOf(ps, n))), PMul2(PsiOf(ps, n + 1), PsiOf(ps, n - 1))), a, b)
OmegaPoly(ps, a, b, n) ==
  LET sq(f) == PMul2(f, f)
      d == PSub2(PMul2(PsiOf(ps, n + 2), sq(PsiOf(ps, n - 1))), PMul2(PsiOf(ps, n - 2), sq(PsiOf(ps, n + 1))))
  IN Reduce(ExactDiv(d, FourY), a, b)

IsIntegral(f) == \A m \in DOMAIN f : m[4] # -2
LowY(f) == \A m \in DOMAIN f : m[2] \in {0, 1} /\ m[1] >= 0 /\ m[3] = 0 /\ ~HasVar(m)
PsiLead(n) == IF n = 0 THEN <<MonoOne, Z0>>
              ELSE IF n % 2 = 1 THEN <<<<(n * n - 1) \div 2, 0, 0, -1, -1>>, ZI(n)>>
              ELSE <<<<(n * n - 4) \div 2, 1, 0, -1, -1>>, ZI(n)>>
=============================================================================
