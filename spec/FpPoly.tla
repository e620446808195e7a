------------------------------- MODULE FpPoly -------------------------------
(***************************************************************************)
(* Polynomials in x over F_p (p prime): remainder, monic form, gcd.        *)
(* The other variables are constants: f is a family, indexed by the rest   *)
(* <<y, q, i, j>> of the monomial, of dense coefficient sequences in x.    *)
(***************************************************************************)
EXTENDS Poly

OnlyPlain(f) == \A m \in DOMAIN f : ~HasVar(m)
UniX(f) == \A m \in DOMAIN f : m[1] >= 0 /\ m[2] = 0 /\ m[3] = 0 /\ ~HasVar(m)

(* ---- dense sequences: s[k] is the coefficient of x^(k-1), no zero at the end ---- *)
RECURSIVE DTrim(_)
DTrim(s) == IF s # <<>> /\ s[Len(s)] = Z0 THEN DTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
MaxOf(S) == CHOOSE n \in S : \A k \in S : k <= n
DenseOf(f, rest, p) ==                     \* coefficients of x^k times the monomial rest, modulo p
  LET E == {m[1] : m \in {k \in DOMAIN f : SubSeq(k, 2, 5) = rest}}
  IN IF E = {} THEN <<>>
     ELSE DTrim(TLCEval([k \in 1..(MaxOf(E) + 1) |-> ZMod(Coef(f, <<k - 1>> \o rest), p)]))
NoRest == <<0, 0, -1, -1>>
Dense(f, p) == DenseOf(f, NoRest, p)
SparseTerms(s, rest) == [m \in {<<k - 1>> \o rest : k \in {k \in 1..Len(s) : s[k] # Z0}} |-> s[m[1] + 1]]
Sparse(s) == SparseTerms(s, NoRest)

\* remainder of s by the non-zero g, both trimmed and reduced: cancel the top coefficient while possible
DStep(s, g, inv, p) ==
  IF Len(s) < Len(g) THEN s
  ELSE LET o == Len(s) - Len(g)
           Cancel(t, c) == TLCEval([k \in 1..(Len(s) - 1) |-> IF k <= o THEN s[k] ELSE ZMod(ZSub(s[k], ZMul(c, g[k - o])), p)])
       IN DTrim(FoldLeft(Cancel, s, <<ZMod(ZMul(s[Len(s)], inv), p)>>))
DRem(s, g, inv, p) == IF Len(s) < Len(g) THEN s
                      ELSE FoldLeft(LAMBDA t, i : DStep(t, g, inv, p), s, [i \in 1..(Len(s) + 1 - Len(g)) |-> i])
DMod(s, g, p) == DRem(s, g, ZInvMod(g[Len(g)], p), p)

DMonic(s, p) == IF s = <<>> THEN s
                ELSE LET inv == ZInvMod(s[Len(s)], p) IN TLCEval([k \in 1..Len(s) |-> ZMod(ZMul(s[k], inv), p)])
RECURSIVE DGcd(_, _, _)
DGcd(s, g, p) == IF g = <<>> THEN DMonic(s, p) ELSE DGcd(g, DMod(s, g, p), p)

DCoef(s, k) == IF k \in 1..Len(s) THEN s[k] ELSE Z0
DMul(s, g, p) == IF s = <<>> \/ g = <<>> THEN <<>>
                 ELSE DTrim(TLCEval([k \in 1..(Len(s) + Len(g) - 1) |->
                        ZMod(ZSum([i \in 1..k |-> ZMul(DCoef(s, i), DCoef(g, k + 1 - i))]), p)]))
DAdd(s, g, p) == LET n == IF Len(s) > Len(g) THEN Len(s) ELSE Len(g)
                 IN DTrim(TLCEval([k \in 1..n |-> ZMod(ZAdd(DCoef(s, k), DCoef(g, k)), p)]))
DEval(s, v, p) == FoldRight(LAMBDA c, acc : ZMod(ZAdd(c, ZMul(acc, v)), p), s, Z0)
\* s^n mod g
RECURSIVE DPowMod(_, _, _, _)
DPowMod(s, n, g, p) == IF n = 0 THEN DMod(DTrim(<<ZMod(Z1, p)>>), g, p)
                       ELSE LET h == DPowMod(s, n \div 2, g, p)
                                t == DMod(DMul(h, h, p), g, p)
                            IN IF n % 2 = 1 THEN DMod(DMul(t, s, p), g, p) ELSE t

(* ---- the same with functions from exponents to non-zero coefficients, for high degrees ---- *)
STop(s) == MaxOf(DOMAIN s)
STrim(s) == [k \in {k \in DOMAIN s : s[k] # Z0} |-> s[k]]
SOf(f, rest, p) ==
  LET D == {m \in DOMAIN f : SubSeq(m, 2, 5) = rest}
  IN TLCEval(STrim([k \in {m[1] : m \in D} |-> ZMod(f[<<k>> \o rest], p)]))
SAt(s, k) == IF k \in DOMAIN s THEN s[k] ELSE Z0
RECURSIVE SRem(_, _, _, _)
SRem(s, g, inv, p) ==
  IF DOMAIN s = {} THEN s
  ELSE IF STop(s) < STop(g) THEN s
  ELSE LET c == ZMod(ZMul(s[STop(s)], inv), p)
           o == STop(s) - STop(g)
           K == DOMAIN s \cup {k + o : k \in DOMAIN g}
       IN SRem(TLCEval(STrim([k \in K |-> ZMod(ZSub(SAt(s, k), ZMul(c, SAt(g, k - o))), p)])), g, inv, p)
SMod(s, g, p) == SRem(s, g, ZInvMod(g[STop(g)], p), p)
SMonic(s, p) == IF DOMAIN s = {} THEN s
                ELSE LET inv == ZInvMod(s[STop(s)], p) IN TLCEval([k \in DOMAIN s |-> ZMod(ZMul(s[k], inv), p)])
RECURSIVE SGcd(_, _, _)
SGcd(s, g, p) == IF DOMAIN g = {} THEN SMonic(s, p) ELSE SGcd(g, SMod(s, g, p), p)
STerms(s, rest) == [m \in {<<k>> \o rest : k \in DOMAIN s} |-> s[m[1]]]
High(f) == \E m \in DOMAIN f : m[1] > 600
SomeLeft(f, p) == \E m \in DOMAIN f : ZMod(f[m], p) # Z0

(* ---- on polynomials ------------------------------------------------------------------ *)
FpRemOk(f, g, p) == /\ UniX(g) /\ SomeLeft(g, p)
                    /\ \A m \in DOMAIN f : m[1] >= 0
FpRem(f, g, p) ==
  LET high == High(f) \/ High(g)
      d == IF high THEN <<>> ELSE Dense(g, p)
      s == SOf(g, NoRest, p)
      rests == {SubSeq(m, 2, 5) : m \in DOMAIN f}
      rem == TLCEval([r \in rests |-> IF high THEN STerms(SMod(SOf(f, r, p), s, p), r)
                                         ELSE SparseTerms(DMod(DenseOf(f, r, p), d, p), r)])
      all == UNION {DOMAIN rem[r] : r \in rests}
  IN [m \in all |-> rem[SubSeq(m, 2, 5)][m]]
FpMonic(f, p) == IF High(f) THEN STerms(SMonic(SOf(f, NoRest, p), p), NoRest) ELSE Sparse(DMonic(Dense(f, p), p))
FpGcdOk(f, g, p) == UniX(f) /\ UniX(g) /\ (SomeLeft(f, p) \/ SomeLeft(g, p))
FpGcd(f, g, p) == IF High(f) \/ High(g) THEN STerms(SGcd(SOf(f, NoRest, p), SOf(g, NoRest, p), p), NoRest)
                  ELSE Sparse(DGcd(Dense(f, p), Dense(g, p), p))
=============================================================================
