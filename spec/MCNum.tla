------------------------------- MODULE MCNum -------------------------------
(* The number-theoretic definitions have the properties they are meant to    *)
(* have, for all small arguments.                                            *)
EXTENDS NumTheory, TLC
CONSTANTS B, UPrimes
VARIABLE a
Init == a \in 0..B
Next == UNCHANGED a
Spec == Init /\ [][Next]_a

Around == -B..B
Inverses == \A p \in UPrimes : (a % p # 0) =>
             LET w == ZInvMod(ZInt(a), ZInt(p)) IN
               /\ \A k \in 0..(p - 1) : ((k * a) % p = 1) <=> (ZInt(k) = w)
               /\ w = ZPowMod(ZInt(a), ZInt(p - 2), ZInt(p))
Euclid == \A b \in Around, s \in {-1, 1} :
            LET g == ZToInt(ZGcd(ZInt(s * a), ZInt(b)))
            IN IF a = 0 /\ b = 0 THEN g = 0
               ELSE /\ g > 0 /\ a % g = 0 /\ b % g = 0
                    /\ \A d \in 1..B : (a % d = 0 /\ b % d = 0) => g % d = 0
                    /\ \E u, v \in -(B+1)..(B+1) : BezoutOk(ZInt(s * a), ZInt(b), ZInt(g), ZInt(u), ZInt(v))
\* residues modulo coprime m, n determine the class modulo m n
Crt == a > 0 => \A n \in 1..B : ZGcd(ZInt(a), ZInt(n)) = Z1 =>
         \A x, y \in 0..(a * n - 1) : (x % a = y % a /\ x % n = y % n) => x = y
Primality == \A p \in (30 * a)..(30 * a + 29) : IsPrimeN(p) <=> p >= 2 /\ \A d, e \in 2..(p - 1) : d <= e => d * e # p
Unknowns == \A p \in UPrimes :
   LET vs == {v \in (0..p) \X (0..p) : v[1] <= v[2]} IN
   /\ Cardinality(vs) = UCount(p)
   /\ ZUCount(p) = ZInt(UCount(p))
   /\ \A v \in vs : ZUIndex(p, v[1], v[2]) = ZInt(UIndex(p, v[1], v[2]))
   /\ {UIndex(p, v[1], v[2]) : v \in vs} = 0..(UCount(p) - 1)
   /\ \A v \in vs, w \in vs : v # w => (ULess(v, w) <=> UIndex(p, v[1], v[2]) < UIndex(p, w[1], w[2]))
   /\ \A ix \in 0..(UCount(p) - 1) : LET v == UUnknown(p, ix) IN UValid(p, v) /\ UIndex(p, v[1], v[2]) = ix
=============================================================================
