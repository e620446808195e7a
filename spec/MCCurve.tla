------------------------------- MODULE MCCurve -------------------------------
(***************************************************************************)
(* The properties of the group law hold for the specification itself: all  *)
(* curves over F_p for the listed primes, one state per (curve, point).    *)
(***************************************************************************)
EXTENDS Curve, TLC

CONSTANTS Primes5,      \* the primes checked
          MaxMul        \* multiples -MaxMul..MaxMul
VARIABLES C, S, P       \* curve, all its points, one point

Curves == UNION {{[a |-> ZInt(a), b |-> ZInt(b), p |-> ZInt(p)] : a \in 0..(p - 1), b \in 0..(p - 1)} : p \in Primes5}
Init == /\ C \in {c \in Curves : NonSingular(c)}
        /\ S = Points(C)
        /\ P = O
Next == P = O /\ P' \in S /\ UNCHANGED <<C, S>>
Spec == Init /\ [][Next]_<<C, S, P>>

prime == ZToInt(C.p)
NPts == Cardinality(S)

Group ==
  /\ \A A \in S : /\ CAdd(C, P, A) \in S
                  /\ CAdd(C, P, A) = CAdd(C, A, P)
                  /\ \A B \in S : CAdd(C, CAdd(C, P, A), B) = CAdd(C, P, CAdd(C, A, B))
  /\ CAdd(C, P, O) = P
  /\ CAdd(C, P, CNeg(C, P)) = O
\* the sum of three collinear points is infinity
Collinear ==
  \A A \in S \ {O}, B \in S \ {O} :
    (P # O /\ Cardinality({P, A, B}) = 3 /\ P[1] # A[1] /\
     CM(C, ZMul(ZSub(A[2], P[2]), ZSub(B[1], P[1]))) = CM(C, ZMul(ZSub(B[2], P[2]), ZSub(A[1], P[1]))))
    => CAdd(C, CAdd(C, P, A), B) = O
Multiples ==
  /\ \A n \in 0..MaxMul : /\ CMul(C, P, ZInt(n)) = CMulDef(C, P, n)
                          /\ CMul(C, P, ZInt(-n)) = CNeg(C, CMulDef(C, P, n))
  /\ \A m \in -4..4, n \in -4..4 :
       /\ CAdd(C, CMul(C, P, ZInt(m)), CMul(C, P, ZInt(n))) = CMul(C, P, ZInt(m + n))
       /\ CMul(C, CMul(C, P, ZInt(n)), ZInt(m)) = CMul(C, P, ZInt(m * n))
Orders ==
  LET n == Order(C, P)
  IN /\ NPts % n = 0
     /\ CMul(C, P, ZInt(n)) = O
     /\ \A k \in 1..(n - 1) : CMul(C, P, ZInt(k)) # O
Counting == NPts = CountN(ZToInt(C.a), ZToInt(C.b), prime)
Hasse == (NPts - prime - 1) * (NPts - prime - 1) <= 4 * prime
\* Velu's codomain is non-singular and has as many points
VeluOk ==
  prime >= 5 => \A n \in 1..8 : LET D == Velu(C, Torsion(C, S, ZInt(n)))
                            IN P = O => NonSingular(D) /\ Cardinality(Points(D)) = NPts
\* the quotient by all the points of E(F_p) is E itself: 1 - Frobenius keeps the invariant differential
VeluFull == (prime >= 5 /\ P = O) => Velu(C, S) = [a |-> CM(C, C.a), b |-> CM(C, C.b), p |-> C.p]
\* the quotient by all n^2 points of order n is multiplication by n
VeluTorsion ==
  (prime >= 5 /\ P = O) =>
    \A n \in 2..4 : LET T == Torsion(C, S, ZInt(n))
                    IN Cardinality(T) = n * n => Velu(C, T) = [a |-> CM(C, ZMul(ZPow(ZInt(n), 4), C.a)), b |-> CM(C, ZMul(ZPow(ZInt(n), 6), C.b)), p |-> C.p]
\* the quotient by the group generated by one point
VeluCyclic ==
  prime >= 5 => LET K == {CMul(C, P, ZInt(k)) : k \in 1..Order(C, P)}
                    D == Velu(C, K)
                IN NonSingular(D) /\ Cardinality(Points(D)) = NPts
\* the curves (u^4 a, u^6 b) have the same j-invariant
JOk ==
  (prime >= 5 /\ P = O) =>
    /\ ZSign(JInv(C)) >= 0 /\ ZLt(JInv(C), C.p)
    /\ \A u \in 1..(prime - 1) :
         JInv([C EXCEPT !.a = ZMul(ZPow(ZInt(u), 4), C.a), !.b = ZMul(ZPow(ZInt(u), 6), C.b)]) = JInv(C)
=============================================================================
