------------------------------- MODULE ZZPure -------------------------------
(***************************************************************************)
(* Unbounded integers in plain TLA+.                                       *)
(*                                                                         *)
(* TLC's integers have 32 bits; the library computes with integers of      *)
(* hundreds of digits.  An integer is a tuple <<s, l1, l2, ..., lk>>:      *)
(* s in {-1,0,1} is the sign, l1..lk are the limbs of the absolute value   *)
(* in base 10^4, least significant first, with lk # 0.  Zero is <<0>>.     *)
(* The same representation is used in the recorded traces.                 *)
(*                                                                         *)
(* This module is the definition.  ZZ.tla names the operations the other   *)
(* modules use; TLC evaluates those through a Java module override         *)
(* (java/ZZ.java, java.math.BigInteger), and MCZZ checks that the override *)
(* agrees with the definitions below and with TLC's own integers.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

zBase == 10000

(* ---- magnitudes: sequences of limbs, no zero limb at the end ---------- *)
RECURSIVE mTrim(_)
mTrim(m) == IF m # <<>> /\ m[Len(m)] = 0 THEN mTrim(SubSeq(m, 1, Len(m) - 1)) ELSE m

mLimb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

RECURSIVE mAddFrom(_, _, _, _)
mAddFrom(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET s == mLimb(a, i) + mLimb(b, i) + c
       IN <<s % zBase>> \o mAddFrom(a, b, i + 1, s \div zBase)
mAdd(a, b) == mAddFrom(a, b, 1, 0)

RECURSIVE mCmpFrom(_, _, _)
mCmpFrom(a, b, i) == IF i = 0 THEN 0
                     ELSE IF a[i] < b[i] THEN -1
                     ELSE IF a[i] > b[i] THEN 1
                     ELSE mCmpFrom(a, b, i - 1)
mCmp(a, b) == IF Len(a) < Len(b) THEN -1
              ELSE IF Len(a) > Len(b) THEN 1
              ELSE mCmpFrom(a, b, Len(a))

RECURSIVE mSubFrom(_, _, _, _)
mSubFrom(a, b, i, w) ==
  IF i > Len(a) THEN <<>>
  ELSE LET d == a[i] - mLimb(b, i) - w
       IN IF d < 0 THEN <<d + zBase>> \o mSubFrom(a, b, i + 1, 1)
                   ELSE <<d>> \o mSubFrom(a, b, i + 1, 0)
mSub(a, b) == mTrim(mSubFrom(a, b, 1, 0))        \* a >= b

RECURSIVE mMulLimbFrom(_, _, _, _)
mMulLimbFrom(a, d, i, c) ==
  IF i > Len(a) THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET s == a[i] * d + c
       IN <<s % zBase>> \o mMulLimbFrom(a, d, i + 1, s \div zBase)
mMulLimb(a, d) == IF d = 0 THEN <<>> ELSE mMulLimbFrom(a, d, 1, 0)

mShift(a) == IF a = <<>> THEN a ELSE <<0>> \o a

RECURSIVE mMul(_, _)
mMul(a, b) == IF b = <<>> THEN <<>>
              ELSE mAdd(mMulLimb(a, b[1]), mShift(mMul(a, Tail(b))))

\* largest d in lo..hi with b*d <= r
RECURSIVE mDigit(_, _, _, _)
mDigit(r, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF mCmp(mMulLimb(b, mid), r) <= 0 THEN mDigit(r, b, mid, hi) ELSE mDigit(r, b, lo, mid - 1)

\* long division from the most significant limb; <<quotient, remainder>>
RECURSIVE mDivFrom(_, _, _, _, _)
mDivFrom(a, b, i, q, r) ==
  IF i = 0 THEN <<mTrim(q), r>>
  ELSE LET r1 == mTrim(<<a[i]>> \o r)
           d  == mDigit(r1, b, 0, zBase - 1)
       IN mDivFrom(a, b, i - 1, <<d>> \o q, mSub(r1, mMulLimb(b, d)))
mDivMod(a, b) == mDivFrom(a, b, Len(a), <<>>, <<>>)

(* ---- signed integers --------------------------------------------------- *)
zMk(s, m) == IF m = <<>> THEN <<0>> ELSE <<s>> \o m
zMag(a) == Tail(a)
zSign(a) == a[1]
zIs(a) == /\ a[1] \in {-1, 0, 1}
          /\ (a[1] = 0) = (Len(a) = 1)
          /\ \A i \in 2..Len(a) : a[i] \in 0..(zBase - 1)
          /\ Len(a) > 1 => a[Len(a)] # 0

RECURSIVE mOfNat(_)
mOfNat(n) == IF n = 0 THEN <<>> ELSE <<n % zBase>> \o mOfNat(n \div zBase)
zInt(n) == IF n < 0 THEN zMk(-1, mOfNat(-n)) ELSE zMk(1, mOfNat(n))

RECURSIVE mToNat(_)
mToNat(m) == IF m = <<>> THEN 0 ELSE m[1] + zBase * mToNat(Tail(m))
zToInt(a) == zSign(a) * mToNat(zMag(a))          \* only for small values

zNeg(a) == zMk(-zSign(a), zMag(a))
zAdd(a, b) ==
  IF zSign(a) = 0 THEN b ELSE IF zSign(b) = 0 THEN a
  ELSE IF zSign(a) = zSign(b) THEN zMk(zSign(a), mAdd(zMag(a), zMag(b)))
  ELSE LET c == mCmp(zMag(a), zMag(b))
       IN IF c = 0 THEN <<0>>
          ELSE IF c > 0 THEN zMk(zSign(a), mSub(zMag(a), zMag(b)))
          ELSE zMk(zSign(b), mSub(zMag(b), zMag(a)))
zSub(a, b) == zAdd(a, zNeg(b))
zMul(a, b) == zMk(zSign(a) * zSign(b), mMul(zMag(a), zMag(b)))
zCmp(a, b) == zSign(zSub(a, b))

\* quotient rounded towards minus infinity, remainder with the sign of the divisor; b # 0
zFloorDiv(a, b) ==
  LET dm == mDivMod(zMag(a), zMag(b))
      q  == zMk(zSign(a) * zSign(b), dm[1])
  IN IF dm[2] # <<>> /\ zSign(a) * zSign(b) < 0 THEN zSub(q, zInt(1)) ELSE q
zMod(a, b) == zSub(a, zMul(b, zFloorDiv(a, b)))

RECURSIVE zPow(_, _)
zPow(a, n) == IF n = 0 THEN zInt(1) ELSE zMul(a, zPow(a, n - 1))

zIsOdd(a) == zMod(a, zInt(2)) = zInt(1)
\* a^n mod m, n >= 0 an unbounded integer
RECURSIVE zPowMod(_, _, _)
zPowMod(a, n, m) ==
  IF zSign(n) = 0 THEN zMod(zInt(1), m)
  ELSE LET h == zPowMod(a, zFloorDiv(n, zInt(2)), m)
           s == zMod(zMul(h, h), m)
       IN IF zIsOdd(n) THEN zMod(zMul(s, a), m) ELSE s

RECURSIVE zGcd(_, _)
zGcd(a, b) == IF zSign(b) = 0 THEN zMk(1, zMag(a)) ELSE zGcd(b, zMod(a, b))

\* the inverse of a modulo m (a coprime to m, m > 1)
RECURSIVE zInvFrom(_, _, _, _, _)
zInvFrom(r0, r1, s0, s1, m) ==
  IF zSign(r1) = 0 THEN zMod(s0, m)
  ELSE LET q == zFloorDiv(r0, r1)
       IN zInvFrom(r1, zSub(r0, zMul(q, r1)), s1, zSub(s0, zMul(q, s1)), m)
zInvMod(a, m) == zInvFrom(zMod(a, m), m, zInt(1), zInt(0), m)

zDigit(d) == CASE d = 0 -> "0" [] d = 1 -> "1" [] d = 2 -> "2" [] d = 3 -> "3" [] d = 4 -> "4"
               [] d = 5 -> "5" [] d = 6 -> "6" [] d = 7 -> "7" [] d = 8 -> "8" [] d = 9 -> "9"
zLimb4(l) == zDigit(l \div 1000) \o zDigit((l \div 100) % 10) \o zDigit((l \div 10) % 10) \o zDigit(l % 10)
zLimbTop(l) == IF l >= 1000 THEN zLimb4(l)
               ELSE IF l >= 100 THEN zDigit(l \div 100) \o zDigit((l \div 10) % 10) \o zDigit(l % 10)
               ELSE IF l >= 10 THEN zDigit(l \div 10) \o zDigit(l % 10) ELSE zDigit(l)
RECURSIVE mStr(_, _)
mStr(m, i) == IF i = 0 THEN "" ELSE zLimb4(m[i]) \o mStr(m, i - 1)
zStr(a) == IF zSign(a) = 0 THEN "0"
           ELSE (IF zSign(a) < 0 THEN "-" ELSE "") \o zLimbTop(a[Len(a)]) \o mStr(zMag(a), Len(a) - 2)

(* ---- sums over finite index sets ---------------------------------------- *)
RECURSIVE zSumOver(_, _)
zSumOver(f, S) == IF S = {} THEN zInt(0)
                  ELSE LET i == CHOOSE i \in S : TRUE IN zAdd(f[i], zSumOver(f, S \ {i}))
zSum(f) == zSumOver(f, DOMAIN f)

(* f maps every index to a pair <<key, integer>>; the result maps every key
   with a non-zero total to that total.  This is "collecting like terms".   *)
zCollect(f) ==
  LET keys == {f[i][1] : i \in DOMAIN f}
      tot  == [k \in keys |-> LET I == {i \in DOMAIN f : f[i][1] = k}
                              IN zSumOver([i \in I |-> f[i][2]], I)]
  IN [k \in {k \in keys : tot[k] # <<0>>} |-> tot[k]]
=============================================================================
