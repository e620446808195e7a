------------------------------- MODULE MCCount -------------------------------
(***************************************************************************)
(* The specification of the counting routines is consistent: parity and    *)
(* twist of the trace, and the roots of the modular polynomial are the     *)
(* degree of gcd(x^p - x, Phi_l(x, j)); isogenous curves' j are among them *)
(***************************************************************************)
EXTENDS Counting
CONSTANTS Fields, Ls
VARIABLES C
Init == C \in {c \in UNION {{[a |-> ZInt(a), b |-> ZInt(b), p |-> ZInt(p)] : a \in 0..(p - 1), b \in 0..(p - 1)} : p \in Fields} : c.a = ZInt(1) /\ NonSingular(c)}
Next == C.a # ZMod(ZInt(-1), C.p) /\ C' = [C EXCEPT !.a = ZAdd(C.a, Z1)]
Spec == Init /\ [][Next]_C
q == ZToInt(C.p)
t == Trace(C.a, C.b, q)
NS == NonSingular(C)
Parity == NS => ((q + 1 - t) % 2 = 0 <=> \E x \in Field(C) : CRhs(C, x) = Z0)
Hasse == NS => t * t <= 4 * q
Residues == NS => LET s == SchoofPairs(C.a, C.b, q) IN \A i \in 1..Len(s) : s[i][2] \in 0..(s[i][1] - 1) /\ (t - s[i][2]) % s[i][1] = 0
Twist == NS => LET u == CHOOSE u \in 1..(q - 1) : \A x \in 1..(q - 1) : (x * x) % q # u
               IN Trace(ZMul(ZInt(u * u), C.a), ZMul(ZInt(u * u * u), C.b), q) = -t
GcdIsRoots == NS => \A l \in Ls : (l # q) =>
  LET f == PhiAt(l, JInv(C), C.p)
      xp == DTrim([k \in 1..(q + 1) |-> IF k = q + 1 THEN Z1 ELSE IF k = 2 THEN ZMod(ZInt(-1), C.p) ELSE Z0])
  IN DGcd(xp, f, C.p) = RootPoly(Roots(f, C.p), C.p)
\* a rational point of order l gives a rational l-isogeny: its codomain's j-invariant is a root
IsogenyRoot == (NS /\ q >= 5) => \A l \in Ls : (l # q) =>
  LET K == Torsion(C, Points(C), ZInt(l))
  IN Cardinality(K) = l => ZToInt(JInv(Velu(C, K))) \in Roots(PhiAt(l, JInv(C), C.p), C.p)
=============================================================================
