------------------------------- MODULE ModPoly -------------------------------
(***************************************************************************)
(* The modular polynomial of a prime l: the symmetric integer polynomial   *)
(* x^(l+1) + y^(l+1) - x^l y^l + ... that vanishes at (j(q), j(q^l)).      *)
(***************************************************************************)
EXTENDS QSeries

(* Substituting j(q) for x and j(q^l) for y.  j1 is the series q j(q), at   *)
(* least to order l^2 + l + K.  pw[i+1] = (q j)^i, so that                  *)
(* x^i y^k |-> q^(-i - l k) pw[i+1](q) pw[k+1](q^l).                        *)
RECURSIVE PowersFrom(_, _, _)
PowersFrom(acc, s, n) == IF Len(acc) = n + 1 THEN acc ELSE PowersFrom(Append(acc, SMul(acc[Len(acc)], s)), s, n)
Powers(s, n) == PowersFrom(<<SOne(Len(s) - 1)>>, s, n)
NegOrder(l) == l * l + l
Terms(f) == {<<m[1], m[2]>> : m \in DOMAIN f}
\* series of the products needed for the pairs of exponents D, as functions of the pair
Products(l, j1, K, D) ==
  LET s == STrunc(j1, NegOrder(l) + K)
      pw == Powers(s, l + 1)
      pl == [i \in 1..(l + 2) |-> SInflate(pw[i], l)]
  IN [d \in D |-> SMul(pw[d[1] + 1], pl[d[2] + 1])]
\* coefficient of q^n in x^i y^k
CoefAt(prod, l, d, n) == LET ix == n + d[1] + l * d[2] IN IF ix < 0 THEN Z0 ELSE prod[d][ix + 1]

InBox(f, l) == \A m \in DOMAIN f : /\ m[1] \in 0..(l + 1) /\ m[2] \in 0..(l + 1) /\ m[3] = 0 /\ ~HasVar(m)
Symmetric(f) == \A m \in DOMAIN f : Coef(f, <<m[2], m[1], m[3], m[4], m[5]>>) = f[m]
Shape(f, l) == /\ Coef(f, <<l + 1, 0, 0, -1, -1>>) = Z1
               /\ Coef(f, <<0, l + 1, 0, -1, -1>>) = Z1
               /\ Coef(f, <<l, l, 0, -1, -1>>) = ZInt(-1)
               /\ \A m \in DOMAIN f : (m[1] = l + 1 => m[2] = 0) /\ (m[2] = l + 1 => m[1] = 0)
\* all coefficients of q^n, n <= K, vanish
Vanishes(f, l, j1, K) ==
  LET D == Terms(f)
      prod == Products(l, j1, K, D)
  IN \A n \in (-NegOrder(l))..K :
       ZSum([d \in D |-> ZMul(f[<<d[1], d[2], 0, -1, -1>>], CoefAt(prod, l, d, n))]) = Z0
\* (x^l - y)(x - y^l) modulo l
Kronecker(f, l) ==
  LET t(a, b, c) == TermPoly(<<<<a, b, 0, -1, -1>>, ZInt(c)>>)
  IN PMod(f, ZInt(l)) = PMod(PMul2(PSub2(t(l, 0, 1), t(0, 1, 1)), PSub2(t(1, 0, 1), t(0, l, 1))), ZInt(l))
IsModPoly(f, l, j1, K) == InBox(f, l) /\ Symmetric(f) /\ Shape(f, l) /\ Kronecker(f, l) /\ Vanishes(f, l, j1, K)

(* ---- the polynomial with unknown coefficients ------------------------------------ *)
Sub(i, j) == IF i <= j THEN <<i, j>> ELSE <<j, i>>
UnkMonos(l) == {<<i, j, 0, Sub(i, j)[1], Sub(i, j)[2]>> : i \in 0..l, j \in 0..l}
               \cup {<<l + 1, 0, 0, -1, -1>>, <<0, l + 1, 0, -1, -1>>}
UnkPoly(l) == [m \in UnkMonos(l) |-> Z1]
\* its q-expansion up to q^0
UnkPolyQ(l, j1) ==
  LET F == UnkPoly(l)
      prod == Products(l, j1, 0, {<<m[1], m[2]>> : m \in DOMAIN F})
  IN ZCollect([mn \in (DOMAIN F) \X ((-NegOrder(l))..0) |->
                 LET m == mn[1] n == mn[2]
                 IN <<<<0, 0, n, m[4], m[5]>>, CoefAt(prod, l, <<m[1], m[2]>>, n)>>])
\* one equation per power of q
UnkList(l, j1) == LET g == UnkPolyQ(l, j1) IN [i \in 1..(NegOrder(l) + 1) |-> QCoef(g, i - 1 - NegOrder(l))]
=============================================================================
