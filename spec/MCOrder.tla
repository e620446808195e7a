------------------------------- MODULE MCOrder -------------------------------
(* The monomial order is total, and the comparison function agrees with it.   *)
EXTENDS Poly
VARIABLES m, k
Ms == {<<x, y, q, v[1], v[2]>> : x \in -1..1, y \in -1..1, q \in -1..1, v \in {NoVar, <<0, 0>>, <<0, 1>>, <<1, 0>>}}
Init == m \in Ms /\ k = m
Next == k = m /\ k' \in Ms /\ UNCHANGED m
Spec == Init /\ [][Next]_<<m, k>>
Total == /\ (m = k) \/ MLess(m, k) \/ MLess(k, m)
         /\ ~(MLess(m, k) /\ MLess(k, m)) /\ ~MLess(m, m)
         /\ MCmp(m, k) = -MCmp(k, m)
         /\ (MCmp(m, k) = 0) <=> (m = k)
Transitive == \A i \in Ms : (MLess(m, k) /\ MLess(k, i)) => MLess(m, i)
NoneFirst == (SubSeq(m, 1, 3) = SubSeq(k, 1, 3) /\ ~HasVar(m) /\ HasVar(k)) => MLess(m, k)
=============================================================================
