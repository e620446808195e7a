------------------------------ MODULE Counting ------------------------------
(***************************************************************************)
(* What the point-counting routines must return: the trace of Frobenius    *)
(* modulo small primes (Schoof), the roots of the modular polynomial over  *)
(* F_p at the j-invariant (the Elkies/Atkin step of SEA).                  *)
(***************************************************************************)
EXTENDS Curve, FpPoly, PhiTab

Trace(a, b, q) == q + 1 - CountN(ZToInt(ZMod(a, ZInt(q))), ZToInt(ZMod(b, ZInt(q))), q)
SchoofPrimes(q) == SelectSeq(<<2, 3, 5>>, LAMBDA l : l = 2 \/ l < q)
SchoofPairs(a, b, q) == LET t == Trace(a, b, q) ls == SchoofPrimes(q)
                        IN [i \in 1..Len(ls) |-> <<ls[i], t % ls[i]>>]
ProductN(s) == FoldLeft(LAMBDA acc, x : acc * x, 1, s)

(* ---- SEA ---------------------------------------------------------------------- *)
\* Phi_l(x, j) over F_p as a dense sequence
PhiAt(l, j, p) == LET f == EvalY(PMod(Phi[l], p), j) IN Dense(f, p)
Roots(s, p) == {i \in 0..(ZToInt(p) - 1) : DEval(s, ZInt(i), p) = Z0}
\* the monic polynomial with exactly these simple roots
RootPoly(R, p) == FoldSet(LAMBDA i, acc : DMul(acc, <<ZMod(ZInt(-i), p), Z1>>, p), <<Z1>>, R)
RECURSIVE Least(_, _)
Least(R, n) == IF n = 0 \/ R = {} THEN <<>>
               ELSE LET m == CHOOSE m \in R : \A k \in R : m <= k IN <<m>> \o Least(R \ {m}, n - 1)
=============================================================================
