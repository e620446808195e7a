----------------------------- MODULE NumTheory -----------------------------
(***************************************************************************)
(* Integer services: powers, modular powers and inverses, extended Euclid, *)
(* Chinese remaindering, the linear solver, unknown <-> index conversion.  *)
(* Functions are given by value; where several results are right (Bezout   *)
(* coefficients, the representative of a residue class) by a relation.     *)
(***************************************************************************)
EXTENDS ZZ, SequencesExt

(* ---- extended Euclid ------------------------------------------------------- *)
BezoutOk(a, b, g, u, v) ==
  /\ ZAdd(ZMul(a, u), ZMul(b, v)) = g
  /\ ZDivides(g, a) /\ ZDivides(g, b)
  /\ (IF ZSign(g) < 0 THEN ZNeg(g) ELSE g) = ZGcd(a, b)
  /\ (ZSign(a) >= 0 /\ ZSign(b) >= 0) => ZSign(g) >= 0

(* ---- Chinese remaindering: cs is a sequence of <<modulus, residue>> --------- *)
CrtDomain(cs) == /\ \A i \in 1..Len(cs) : ZSign(cs[i][1]) > 0
                 /\ \A i, j \in 1..Len(cs) : i < j => ZGcd(cs[i][1], cs[j][1]) = Z1
Product(cs) == FoldLeft(LAMBDA acc, c : ZMul(acc, c[1]), Z1, cs)
CrtOk(cs, m, r) == /\ m = Product(cs)
                   /\ \A i \in 1..Len(cs) : ZDivides(cs[i][1], ZSub(r, cs[i][2]))

(* ---- linear systems: rows <<c1, ..., cn, rhs>>, s a solution ------------------ *)
RowDot(row, s) == ZSum([k \in 1..Len(s) |-> ZMul(row[k], s[k])])
Solves(m, s) == \A i \in 1..Len(m) : Len(m[i]) = Len(s) + 1 /\ RowDot(m[i], s) = m[i][Len(s) + 1]

\* column rank n modulo some prime implies column rank n over the rationals
RankPrime == 9973
RECURSIVE PowSmall(_, _)
PowSmall(a, n) == IF n = 0 THEN 1 ELSE LET h == PowSmall(a, n \div 2)
                                           s == (h * h) % RankPrime
                                       IN IF n % 2 = 1 THEN (s * a) % RankPrime ELSE s
RECURSIVE FullRankFrom(_, _)
FullRankFrom(rows, n) ==      \* rows over F_9973: eliminate column 1, recurse on the others
  IF n = 0 THEN TRUE
  ELSE LET piv == {i \in 1..Len(rows) : rows[i][1] # 0}
       IN IF piv = {} THEN FALSE
          ELSE LET q == CHOOSE i \in piv : TRUE
                   inv == PowSmall(rows[q][1], RankPrime - 2)
                   others == SelectSeq([i \in 1..Len(rows) |-> IF i = q THEN <<>> ELSE rows[i]], LAMBDA r : r # <<>>)
                   elim(r) == LET f == (r[1] * inv) % RankPrime
                              IN [k \in 1..(n - 1) |-> (r[k + 1] + RankPrime * RankPrime - f * rows[q][k + 1]) % RankPrime]
               IN FullRankFrom([i \in 1..Len(others) |-> elim(others[i])], n - 1)
FullRank(m, n) == FullRankFrom([i \in 1..Len(m) |-> [k \in 1..n |-> ZToInt(ZMod(m[i][k], ZInt(RankPrime)))]], n)
LinearDomain(m, s) == Len(m) >= Len(s) /\ Solves(m, s) /\ FullRank(m, Len(s))
\* a vector that shows the columns to be dependent
Kernel(m, v) == /\ \E i \in 1..Len(v) : v[i] # Z0
                /\ \A r \in 1..Len(m) : ZSum([i \in 1..Len(v) |-> ZMul(m[r][i], v[i])]) = Z0
\* the i-th row of the result ends in the i-th component
LinearOk(s, r) == Len(r) >= Len(s) /\ \A i \in 1..Len(s) : r[i] = s[i]

(* ---- unknowns c_i_j, 0 <= i <= j <= p ------------------------------------------- *)
IsPrimeN(p) == p >= 2 /\ \A d \in 2..(IF p < 2500 THEN 49 ELSE IF p < 10^6 THEN 999 ELSE 46340) : d >= p \/ p % d # 0
UCount(p) == ((p + 1) * (p + 2)) \div 2
\* the pairs i < j lexicographically, then the diagonal
UFirst(p, i) == i * p - ((i * (i - 1)) \div 2)      \* number of pairs (k, j), k < j, with k < i
UIndex(p, i, j) == IF i < j THEN UFirst(p, i) + (j - i - 1) ELSE ((p * (p + 1)) \div 2) + i
UValid(p, v) == 0 <= v[1] /\ v[1] <= v[2] /\ v[2] <= p
\* (MCNum checks that it is the inverse of UIndex)
UUnknown(p, ix) ==
  LET d == (p * (p + 1)) \div 2
      i == CHOOSE i \in 0..(p - 1) : UFirst(p, i) <= ix /\ ix < UFirst(p, i + 1)
  IN IF ix >= d THEN <<ix - d, ix - d>> ELSE <<i, i + 1 + (ix - UFirst(p, i))>>
\* the same numbers beyond machine integers (MCNum: they agree)
ZHalf(a) == ZFloorDiv(a, ZInt(2))
ZUCount(p) == ZHalf(ZMul(ZInt(p + 1), ZInt(p + 2)))
ZUFirst(p, i) == ZSub(ZMul(ZInt(i), ZInt(p)), ZHalf(ZMul(ZInt(i), ZInt(i - 1))))
ZUIndex(p, i, j) == IF i < j THEN ZAdd(ZUFirst(p, i), ZInt(j - i - 1))
                    ELSE ZAdd(ZHalf(ZMul(ZInt(p), ZInt(p + 1))), ZInt(i))
ULess(v, w) ==     \* the enumeration order itself
  LET dv == v[1] = v[2]  dw == w[1] = w[2]
  IN IF dv # dw THEN dw ELSE v[1] < w[1] \/ (v[1] = w[1] /\ v[2] < w[2])
=============================================================================
