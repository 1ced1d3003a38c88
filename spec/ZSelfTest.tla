------------------------------- MODULE ZSelfTest -------------------------------
(* The evaluations behind Z.tla agree with TLC's integers and with the laws of  *)
(* arithmetic.                                                                  *)
EXTENDS Z, TLC, FiniteSets

R == -7..7
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0

ASSUME \A a \in R, b \in R :
   /\ ZAdd(a, b) = ToString(a + b)
   /\ ZSub(a, b) = ToString(a - b)
   /\ ZMul(a, b) = ToString(a * b)
   /\ ZCmp(ToString(a), ToString(b)) = Sgn(a - b)
   /\ b # 0 => ZDiv(ZI(a), ZI(b)) = ToString((Sgn(b) * a) \div Abs(b))
   /\ b > 0 => ZMod(a, b) = ToString(a % b) /\ ZModInt(ZI(a), b) = a % b
   /\ b # 0 => LET q == ZInt(ZDivR(a, b)) IN
                 /\ 2 * Abs(a - q * b) <= Abs(b)
                 /\ 2 * Abs(a - q * b) = Abs(b) => Abs(q * b) > Abs(a)
   /\ b >= 0 => ZPow(a, b) = (LET P[k \in 0..b] == IF k = 0 THEN "1" ELSE ZMul(P[k-1], a) IN P[b])
   /\ b >= 0 => ZShl(a, b) = ZMul(a, ZPow(2, b))
   /\ b < 0 => ZShl(a, b) = ZDiv(a, ZPow(2, -b))
ASSUME \A a \in 0..300 :
   /\ LET q == ZInt(ZSqrt(a)) IN q * q <= a /\ (q + 1) * (q + 1) > a
   /\ ZDigits(a) = Len(ToString(a))
   /\ a > 0 => ZPow(2, ZBits(a) - 1) = ToString(CHOOSE p \in {1,2,4,8,16,32,64,128,256} : p <= a /\ 2 * p > a)
ASSUME \A a \in 0..31, b \in 0..31 :
   LET Bit(x, k) == (x \div (2^k)) % 2
   IN \A k \in 0..4 :
        /\ Bit(ZInt(ZAnd(a, b)), k) = Bit(a, k) * Bit(b, k)
        /\ Bit(ZInt(ZXor(a, b)), k) = (Bit(a, k) + Bit(b, k)) % 2
        /\ Bit(ZInt(ZOr(a, b)), k) = IF Bit(a, k) + Bit(b, k) > 0 THEN 1 ELSE 0

\* Laws on large numbers.
Big(k) == ZSub(ZRandBits(ZMix(k, 3), 50 + 37 * k), ZPow(2, 40 + 37 * k))
ASSUME \A i \in 1..6, j \in 1..6 :
   LET a == Big(i) b == Big(j) IN
   /\ ZSub(ZAdd(a, b), b) = a
   /\ ZMul(a, b) = ZMul(b, a)
   /\ ZAdd(ZMul(ZDiv(a, ZAbs(b)), ZAbs(b)), ZMod(a, ZAbs(b))) = a
   /\ ZLt(ZMod(a, ZAbs(b)), ZAbs(b)) /\ ZLe("0", ZMod(a, ZAbs(b)))
   /\ ZMul(ZAdd(a, b), ZSub(a, b)) = ZSub(ZMul(a, a), ZMul(b, b))
   /\ LET q == ZSqrt(ZAbs(a)) IN ZLe(ZMul(q, q), ZAbs(a)) /\ ZLt(ZAbs(a), ZMul(ZAdd(q, 1), ZAdd(q, 1)))

ASSUME ZDec("1.50") = <<"150", 2>> /\ ZDec("-0.5e1") = <<"-5", 0>> /\ ZDec("1_000u32") = <<"1000", 0>>
ASSUME ZDec("2e3f64") = <<"2000", 0>> /\ ZDec("1e-3") = <<"1", 3>> /\ ZDec("0x1Fu8") = <<"31", 0>> /\ ZDec("x")[1] = "bad"
ASSUME ZDec("7.") = <<"7", 0>> /\ ZDec("1.5f32") = <<"15", 1>>
ASSUME ZShow("-5", 3) = "-0.005" /\ ZShow("12345", 2) = "123.45" /\ ZShow("7", 0) = "7"
ASSUME ZHex("255") = "ff"
\* The pseudo-random function takes every small residue.
ASSUME Cardinality({Pick(ZMix(1, k), 10) : k \in 1..200}) = 10
ASSUME ZContains("abc", "bc") /\ ~ZContains("abc", "cb")
===============================================================================
