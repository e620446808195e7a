------------------------------ MODULE QSeries ------------------------------
(***************************************************************************)
(* Power series in q with integer coefficients, to a fixed order: the      *)
(* sequence s with s[k+1] the coefficient of q^k.  Modular forms of level  *)
(* one by their mathematical definitions.                                  *)
(***************************************************************************)
EXTENDS Poly

SOne(n) == TLCEval([k \in 1..(n + 1) |-> IF k = 1 THEN Z1 ELSE Z0])
STrunc(s, n) == SubSeq(s, 1, n + 1)
SMul(s, t) == TLCEval([k \in 1..Len(s) |-> ZSum([i \in 1..k |-> ZMul(s[i], t[k + 1 - i])])])     \* same order
SAdd(s, t) == TLCEval([k \in 1..Len(s) |-> ZAdd(s[k], t[k])])
SScale(s, c) == TLCEval([k \in 1..Len(s) |-> ZMul(c, s[k])])
RECURSIVE SPow(_, _)
SPow(s, n) == IF n = 0 THEN SOne(Len(s) - 1) ELSE SMul(s, SPow(s, n - 1))
\* q -> q^n, same order
SInflate(s, n) == TLCEval([k \in 1..Len(s) |-> IF (k - 1) % n = 0 THEN s[((k - 1) \div n) + 1] ELSE Z0])
SPoly(s) == [m \in {<<0, 0, k - 1, -1, -1>> : k \in {k \in 1..Len(s) : s[k] # Z0}} |-> s[m[3] + 1]]

(* ---- divisor sums, Eisenstein series --------------------------------------- *)
Sigma(n, k) == ZSum([d \in {d \in 1..n : n % d = 0} |-> ZPow(ZInt(d), k)])
\* the same, looking only for the smaller divisor of each pair
Divisors(n) == LET S == {d \in 1..(IF n < 46340 THEN n ELSE 46340) : d <= n \div d /\ n % d = 0} IN S \cup {n \div d : d \in S}
SigmaBig(n, k) == ZSum([d \in Divisors(n) |-> ZPow(ZInt(d), k)])
E4(n) == TLCEval([k \in 1..(n + 1) |-> IF k = 1 THEN Z1 ELSE ZMul(ZInt(240), Sigma(k - 1, 3))])
E6(n) == TLCEval([k \in 1..(n + 1) |-> IF k = 1 THEN Z1 ELSE ZMul(ZInt(-504), Sigma(k - 1, 5))])

(* ---- the product of (1 - q^n)^24 --------------------------------------------- *)
TimesOneMinus(s, n) == TLCEval([k \in 1..Len(s) |-> IF k > n THEN ZSub(s[k], s[k - n]) ELSE s[k]])
Upto(n) == [i \in 1..n |-> i]
TimesOneMinus24(s, n) == FoldLeft(LAMBDA acc, i : TimesOneMinus(acc, n), s, Upto(24))
Delta(n) == FoldLeft(LAMBDA acc, i : TimesOneMinus24(acc, i), SOne(n), Upto(n))

(* ---- inverse of a series with constant term 1 ---------------------------------- *)
RECURSIVE SInvFrom(_, _, _)
SInvFrom(s, inv, n) ==
  IF Len(inv) = n + 1 THEN inv
  ELSE LET k == Len(inv) + 1
       IN SInvFrom(s, Append(inv, ZNeg(ZSum([i \in 1..(k - 1) |-> ZMul(inv[i], s[k + 1 - i])]))), n)
SInv(s) == SInvFrom(s, <<Z1>>, Len(s) - 1)

(* ---- j(q) q, and j(q) itself as a polynomial ------------------------------------- *)
J1(n) == SMul(SPow(E4(n), 3), SInv(Delta(n)))
JPolyOf(j1) == [m \in {<<0, 0, k - 2, -1, -1>> : k \in {k \in 1..Len(j1) : j1[k] # Z0}} |-> j1[m[3] + 2]]
=============================================================================
