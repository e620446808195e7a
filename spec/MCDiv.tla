-------------------------------- MODULE MCDiv --------------------------------
(***************************************************************************)
(* The division polynomials of DivPoly are integral, have the stated       *)
(* leading terms, and describe multiplication by n at every point of every *)
(* non-singular curve over the listed fields.  One state per (curve, n).   *)
(***************************************************************************)
EXTENDS DivPoly, Curve
CONSTANTS Fields, MaxN
VARIABLES C, n
Init == /\ C \in UNION {{[a |-> ZInt(a), b |-> ZInt(b), p |-> ZInt(p)] : a \in 0..(p - 1), b \in 0..(p - 1)} : p \in Fields}
        /\ n = 0
Next == n < MaxN /\ n' = n + 1 /\ UNCHANGED C
Spec == Init /\ [][Next]_<<C, n>>
At(f, P) == CM(C, EvalXY(f, P[1], P[2]))
Integral ==
  LET ps == PsiTable(C.a, C.b, n + 2)
  IN /\ \A i \in 0..(n + 2) : IsIntegral(PsiOf(ps, i)) /\ LowY(PsiOf(ps, i)) /\ Lead(PsiOf(ps, i)) = PsiLead(i)
     /\ n >= 1 => IsIntegral(OmegaPoly(ps, C.a, C.b, n)) /\ LowY(OmegaPoly(ps, C.a, C.b, n)) /\ LowY(PhiPoly(ps, C.a, C.b, n))
Describe ==
  (NonSingular(C) /\ n >= 1) =>
    LET ps == PsiTable(C.a, C.b, n + 2)
        psi == PsiOf(ps, n)
        phi == PhiPoly(ps, C.a, C.b, n)
        omega == OmegaPoly(ps, C.a, C.b, n)
    IN \A P \in Points(C) \ {O} :
         LET R == CMul(C, P, ZInt(n))
             v == At(psi, P)
         IN /\ (v = Z0) <=> (R = O)
            /\ R # O => /\ CM(C, ZMul(R[1], ZMul(v, v))) = At(phi, P)
                        /\ CM(C, ZMul(R[2], ZPow(v, 3))) = At(omega, P)
=============================================================================
