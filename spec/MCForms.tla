------------------------------- MODULE MCForms -------------------------------
(* The series of QSeries satisfy the identities of the theory, and the       *)
(* tabulated modular polynomials are modular polynomials.  One state per     *)
(* order k: the expansions of every order agree on their common part.        *)
EXTENDS ModPoly, PhiTab, TLC
CONSTANT N, PhiL
VARIABLE k
Init == k = 0
Next == k < N /\ k' = k + 1
Spec == Init /\ [][Next]_k

CE4 == E4(N)
CDelta == Delta(N)
CInv == SInv(CDelta)
CJ1 == SMul(SPow(CE4, 3), CInv)

\* Jacobi: prod (1 - q^n)^3 = sum (-1)^m (2m+1) q^(m(m+1)/2)
Jacobi == [i \in 1..(N + 1) |->
             LET ms == {m \in 0..N : m * (m + 1) = 2 * (i - 1)}
             IN IF ms = {} THEN Z0 ELSE LET m == CHOOSE m \in ms : TRUE
                                        IN ZInt(IF m % 2 = 0 THEN 2 * m + 1 ELSE -(2 * m + 1))]
Jacobi8 == SPow(Jacobi, 8)
JD == SMul(CJ1, CDelta)
E43 == SPow(CE4, 3)
E62 == SPow(E6(N), 2)

DeltaIsEta == CDelta[k + 1] = Jacobi8[k + 1]
InverseOk == SMul(CDelta, CInv)[k + 1] = (IF k = 0 THEN Z1 ELSE Z0)
JDelta == JD[k + 1] = E43[k + 1]
\* E4^3 - E6^2 = 1728 q prod (1-q^n)^24
Discriminant == ZSub(E43[k + 1], E62[k + 1]) = (IF k = 0 THEN Z0 ELSE ZMul(ZInt(1728), CDelta[k]))
Agree == k <= 8 => E4(k) = STrunc(CE4, k) /\ Delta(k) = STrunc(CDelta, k) /\ J1(k) = STrunc(CJ1, k)
\* Hecke: the coefficients tau of Delta are multiplicative; Ramanujan: tau = sigma_11 modulo 691
tau(n) == CDelta[n]
Hecke ==
  LET n == k + 1
  IN /\ \A d \in 2..(N + 1) : n * d <= N + 1 =>
          ZMul(tau(n), tau(d)) = ZSum([c \in {c \in 1..d : d % c = 0 /\ n % c = 0} |-> ZMul(ZPow(ZInt(c), 11), tau((n \div c) * (d \div c)))])
     /\ ZMod(ZSub(tau(n), Sigma(n, 11)), ZInt(691)) = Z0
E8 == SMul(CE4, CE4)
E10 == SMul(CE4, E6(N))
Eisenstein == k >= 1 => /\ E8[k + 1] = ZMul(ZInt(480), Sigma(k, 7))
                        /\ E10[k + 1] = ZMul(ZInt(-264), Sigma(k, 9))
SigmaOk == k >= 1 => \A j \in 0..3 : Sigma(k, j) = SigmaBig(k, j)
PhiOk == k \in PhiL => IsModPoly(Phi[k], k, CJ1, k)
=============================================================================
