-------------------------------- MODULE MCFp --------------------------------
(***************************************************************************)
(* Remainder and gcd of FpPoly are the Euclidean remainder and the monic   *)
(* greatest common divisor: all pairs of polynomials over F_p of degree    *)
(* at most MaxDeg.                                                         *)
(***************************************************************************)
EXTENDS FpPoly
CONSTANTS P0, MaxDeg
VARIABLES s, g
p == ZInt(P0)
Ds == {DTrim(d) : d \in [1..(MaxDeg + 1) -> {ZInt(i) : i \in 0..(P0 - 1)}]}
Init == s \in Ds /\ g = <<>>
Next == g = <<>> /\ g' \in (Ds \ {<<>>}) /\ UNCHANGED s
Spec == Init /\ [][Next]_<<s, g>>
Divides(d, f) == \E k \in Ds : DMul(d, k, p) = f
Remainder == g # <<>> =>
  LET r == DMod(s, g, p)
      ok(c) == Len(c) < Len(g) /\ \E k \in Ds : DAdd(DMul(k, g, p), c, p) = s
  IN ok(r) /\ \A c \in Ds : ok(c) => c = r
Gcd == g # <<>> =>
  LET d == DGcd(s, g, p)
  IN /\ d[Len(d)] = Z1 /\ d = DGcd(g, s, p)
     /\ Divides(d, s) /\ Divides(d, g)
     /\ \A c \in Ds \ {<<>>} : (Divides(c, s) /\ Divides(c, g)) => Divides(c, d)
Monic == LET m == DMonic(s, p) IN s # <<>> => m[Len(m)] = Z1 /\ Divides(m, s) /\ Divides(s, m)
SameSparse == LET S(d) == SOf(Sparse(d), NoRest, p) IN
  /\ Sparse(DMonic(s, p)) = STerms(SMonic(S(s), p), NoRest)
  /\ g # <<>> => /\ Sparse(DMod(s, g, p)) = STerms(SMod(S(s), S(g), p), NoRest)
                 /\ Sparse(DGcd(s, g, p)) = STerms(SGcd(S(s), S(g), p), NoRest)
RoundTrip == Dense(Sparse(s), p) = s
=============================================================================
