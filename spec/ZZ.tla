--------------------------------- MODULE ZZ ---------------------------------
(* The integer operations the other modules use.  The definitions are those  *)
(* of ZZPure; TLC evaluates these names through java/ZZ.java (checked against *)
(* the definitions by MCZZ).                                                  *)
EXTENDS ZZPure

ZInt(n) == zInt(n)
ZToInt(a) == zToInt(a)
ZNeg(a) == zNeg(a)
ZAdd(a, b) == zAdd(a, b)
ZSub(a, b) == zSub(a, b)
ZMul(a, b) == zMul(a, b)
ZCmp(a, b) == zCmp(a, b)
ZFloorDiv(a, b) == zFloorDiv(a, b)
ZMod(a, b) == zMod(a, b)
ZPow(a, n) == zPow(a, n)
ZPowMod(a, n, m) == zPowMod(a, n, m)
ZGcd(a, b) == zGcd(a, b)
ZInvMod(a, m) == zInvMod(a, m)
ZStr(a) == zStr(a)
ZSum(f) == zSum(f)
ZCollect(f) == zCollect(f)

Z0 == <<0>>
Z1 == <<1, 1>>
ZSign(a) == a[1]
ZLe(a, b) == ZCmp(a, b) <= 0
ZLt(a, b) == ZCmp(a, b) < 0
ZEven(a) == ZMod(a, <<1, 2>>) = Z0
ZUnit(a) == a \in {Z0, Z1, <<-1, 1>>}
\* powers of 0, 1 and -1, for exponents of any size
ZPowUnit(a, n) == IF n = Z0 THEN Z1 ELSE IF a = <<-1, 1>> /\ ZEven(n) THEN Z1 ELSE a
ZDivides(a, b) == IF a = Z0 THEN b = Z0 ELSE ZMod(b, a) = Z0
=============================================================================
