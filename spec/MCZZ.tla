-------------------------------- MODULE MCZZ --------------------------------
(* Theorems about the integers of ZZPure, and agreement of the override.     *)
EXTENDS ZZ, TLC
CONSTANTS R, Steps

Seeds == {-10001, -10000, -9999, -123, -2, -1, 0, 1, 2, 3, 7, 97, 9999, 10000, 10007, 20000}

VARIABLES a, b, k
vars == <<a, b, k>>

\* a deterministic walk to larger and larger operands of both signs
Init == \E x \in -R..R, y \in Seeds : a = zInt(x) /\ b = zInt(y) /\ k = 0
Next == /\ k < Steps
        /\ k' = k + 1
        /\ \/ a' = zAdd(zMul(a, b), zInt(k)) /\ b' = zNeg(a)
           \/ a' = zSub(zMul(a, a), zInt(9999 + k)) /\ b' = zAdd(b, zInt(k))
Spec == Init /\ [][Next]_vars

Well == zIs(a) /\ zIs(b)

Override ==
  /\ ZAdd(a, b) = zAdd(a, b) /\ ZSub(a, b) = zSub(a, b) /\ ZMul(a, b) = zMul(a, b)
  /\ ZNeg(a) = zNeg(a) /\ ZCmp(a, b) = zCmp(a, b) /\ ZStr(a) = zStr(a)
  /\ ZGcd(a, b) = zGcd(a, b) /\ ZPow(a, k) = zPow(a, k)
  /\ b # Z0 => ZFloorDiv(a, b) = zFloorDiv(a, b) /\ ZMod(a, b) = zMod(a, b)
  /\ ZSign(b) > 0 /\ ZSign(a) >= 0 => ZPowMod(zInt(-7), a, b) = zPowMod(zInt(-7), a, b)
  /\ (ZSign(b) > 0 /\ b # Z1 /\ zGcd(a, b) = Z1) => ZInvMod(a, b) = zInvMod(a, b)
  /\ ZSum(<<a, b, a, zNeg(b)>>) = zSum(<<a, b, a, zNeg(b)>>)
  /\ LET f == [i \in (0..2) \X {0, 1} |-> <<<<i[1] % 2, 1>>, IF i[2] = 0 THEN a ELSE IF i[1] = 1 THEN zNeg(a) ELSE b>>]
     IN ZCollect(f) = zCollect(f)
  /\ ZCollect(<<<<"u", a>>, <<"u", zNeg(a)>>, <<"v", b>>>>) = zCollect(<<<<"u", a>>, <<"u", zNeg(a)>>, <<"v", b>>>>)
  /\ ZCollect(<<<<"u", a>>, <<"u", zNeg(a)>>>>) = << >>
  /\ ZInt(k - 17000) = zInt(k - 17000) /\ ZToInt(zInt(k - 17000)) = k - 17000

Ring ==
  /\ zSub(zAdd(a, b), b) = a
  /\ zMul(zAdd(a, b), zSub(a, b)) = zSub(zMul(a, a), zMul(b, b))
  /\ b # Z0 => /\ zAdd(zMul(b, zFloorDiv(a, b)), zMod(a, b)) = a
               /\ zMod(a, b) = Z0 \/ zSign(zMod(a, b)) = zSign(b)
               /\ mCmp(zMag(zMod(a, b)), zMag(b)) < 0
  /\ (zSign(b) > 0 /\ b # Z1 /\ zGcd(a, b) = Z1) => zMod(zMul(a, zInvMod(a, b)), b) = Z1

\* agreement with TLC's own integers on the initial states
Native == k = 0 =>
  LET x == zToInt(a)  y == zToInt(b) IN
  /\ zAdd(a, b) = zInt(x + y) /\ zSub(a, b) = zInt(x - y) /\ zMul(a, b) = zInt(x * y)
  /\ zCmp(a, b) = IF x < y THEN -1 ELSE IF x = y THEN 0 ELSE 1
  /\ y > 0 => zMod(a, b) = zInt(x % y) /\ zFloorDiv(a, b) = zInt(x \div y)
  /\ zStr(a) = ToString(x)
=============================================================================
