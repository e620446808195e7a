------------------------------- MODULE MCPoly -------------------------------
(***************************************************************************)
(* The algebraic laws hold of the definitions in Poly, for all triples of  *)
(* small polynomials over the monomials Mons with coefficients -B..B.      *)
(***************************************************************************)
EXTENDS Poly
CONSTANTS B, MonSel
VARIABLES f, g, h, step

\* monomials: plain ones, ones with negative exponents, one with an unknown
Mons == CASE MonSel = 1 -> {<<0, 0, 0, -1, -1>>, <<1, 0, 0, -1, -1>>, <<0, 1, 0, -1, -1>>}
          [] MonSel = 2 -> {<<0, 0, 0, -1, -1>>, <<0, 2, 0, -1, -1>>, <<1, 3, 0, -1, -1>>}
          [] MonSel = 3 -> {<<-1, 0, 0, -1, -1>>, <<0, 1, -2, -1, -1>>, <<1, -1, 1, 0, 2>>}
          [] MonSel = 4 -> {<<0, 0, 0, -1, -1>>, <<0, 0, 1, -1, -1>>, <<0, 0, 2, 1, 1>>}
Polys == {Strip([m \in Mons |-> ZInt(c[m])]) : c \in [Mons -> -B..B]}
Init == f \in Polys /\ g = PZero /\ h = PZero /\ step = 0
Next == \/ step = 0 /\ g' \in Polys /\ step' = 1 /\ UNCHANGED <<f, h>>
        \/ step = 1 /\ h' \in Polys /\ step' = 2 /\ UNCHANGED <<f, g>>
Spec == Init /\ [][Next]_<<f, g, h, step>>

A == PAdd2(f, g)
Plain == MonSel \in {1, 2}
Ok3 == PMulOk(f, g) /\ PMulOk(g, h) /\ PMulOk(f, h) /\ PMulOk(PMul2(f, g), h) /\ PMulOk(f, PMul2(g, h))

IsCanonical == IsPoly(A) /\ (PMulOk(f, g) => IsPoly(PMul2(f, g))) /\ Canonical(PList(A)) /\ Decode(PList(A)) = A
Additive == /\ A = PAdd2(g, f)
            /\ PAdd2(A, h) = PAdd2(f, PAdd2(g, h))
            /\ PAdd2(f, PZero) = f
            /\ PAdd2(f, PNeg1(f)) = PZero
            /\ PSub2(f, g) = PAdd2(f, PNeg1(g))
Multiplicative ==
  /\ PMul2(f, g) = PMulDef(f, g) /\ PMul2(A, f) = PMulDef(A, f)
  /\ Ok3 =>
         /\ PMul2(f, g) = PMul2(g, f)
         /\ PMul2(PMul2(f, g), h) = PMul2(f, PMul2(g, h))
         /\ PMul2(f, PAdd2(g, h)) = PAdd2(PMul2(f, g), PMul2(f, h))
         /\ PMul2(f, POne) = f
Powers == (step = 0 /\ PMulOk(f, f)) => \A n \in 0..5 : PPow(f, n) = PPowDef(f, n) /\ PPowMod(f, ZInt(n), ZInt(3)) = PMod(PPowDef(f, n), ZInt(3))
                                                                /\ (PPowZOk(f) => PPowZ(f, ZInt(n)) = PPowDef(f, n))
Modular == step = 1 => \A p \in {ZInt(2), ZInt(3), ZInt(6)} :
  /\ PReduced(PMod(f, p), p) /\ PMod(PMod(f, p), p) = PMod(f, p)
  /\ PMod(PAdd2(PMod(f, p), PMod(g, p)), p) = PMod(A, p)
  /\ PMod(PSub2(PMod(f, p), PMod(g, p)), p) = PMod(PSub2(f, g), p)
  /\ PMulOk(f, g) => PMod(PMul2(PMod(f, p), PMod(g, p)), p) = PMod(PMul2(f, g), p)
Division == step = 1 => \A m \in DOMAIN g : ~HasVar(m) =>
  PDivTerm(PMul2(f, TermPoly(<<m, g[m]>>)), <<m, g[m]>>) = f
Derivatives == (Plain /\ step = 1) =>
  /\ DerX(A) = PAdd2(DerX(f), DerX(g)) /\ DerY(A) = PAdd2(DerY(f), DerY(g))
  /\ DerX(PMul2(f, g)) = PAdd2(PMul2(DerX(f), g), PMul2(f, DerX(g)))
  /\ DerY(PMul2(f, g)) = PAdd2(PMul2(DerY(f), g), PMul2(f, DerY(g)))
Homomorphisms == (Plain /\ step = 1) =>
  LET F == PMul2(f, g)
      hom(k(_)) == k(A) = PAdd2(k(f), k(g)) /\ k(F) = PMul2(k(f), k(g))
  IN /\ \A v \in {Z0, ZInt(-2), ZInt(3)} : /\ hom(LAMBDA u : EvalX(u, v)) /\ hom(LAMBDA u : EvalY(u, v))
                                           /\ EvalXY(F, v, Z1) = ZMul(EvalXY(f, v, Z1), EvalXY(g, v, Z1))
                                           /\ EvalX(EvalY(f, v), Z1) = PConst(EvalXY(f, Z1, v))
     /\ hom(LAMBDA u : SubstX(u, PAdd2(PX, POne))) /\ hom(LAMBDA u : SubstY(u, PAdd2(PX, PY)))
     /\ \A n \in 0..3 : hom(LAMBDA u : Frob(u, n)) /\ hom(LAMBDA u : YPow(u, n))
     /\ SubstX(f, PConst(ZInt(3))) = EvalX(f, ZInt(3))
Reduction == (Plain /\ step = 1) =>
  LET a == ZInt(-2) b == ZInt(3)
      R(u) == Reduce(u, a, b)
  IN /\ \A m \in DOMAIN R(f) : m[2] \in {0, 1}
     /\ R(A) = PAdd2(R(f), R(g))
     /\ R(PMul2(f, g)) = R(PMul2(R(f), R(g)))
     /\ R(PMul2(PY, PY)) = Rhs(a, b) /\ R(PX) = PX /\ R(PY) = PY
     /\ ReduceMod(f, a, b, ZInt(5)) = PMod(R(f), ZInt(5))
QSer == (MonSel = 4 /\ step = 1) =>
  \A n \in -1..3 : /\ Omit(A, n) = PAdd2(Omit(f, n), Omit(g, n))
                   /\ (PMulOk(f, g) /\ n >= 0) => Omit(PMul2(f, g), n) = Omit(PMul2(Omit(f, n), Omit(g, n)), n)
                   /\ QCoef(A, n) = PAdd2(QCoef(f, n), QCoef(g, n))
Order == \A m, k, i \in Mons : /\ ~(MLess(m, k) /\ MLess(k, m)) /\ (m = k \/ MLess(m, k) \/ MLess(k, m))
                               /\ (MLess(m, k) /\ MLess(k, i)) => MLess(m, i)
                               /\ (MLess(m, k) /\ MMulOk(m, i) /\ MMulOk(k, i) /\ ~HasVar(i)) => MLess(MMul(m, i), MMul(k, i))
LeadOk == (step = 1 /\ f # PZero /\ g # PZero /\ Plain) =>
            Lead(PMul2(f, g)) = TermMul(Lead(f), Lead(g))
=============================================================================
