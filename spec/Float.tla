--------------------------------- MODULE Float ----------------------------------
(***************************************************************************)
(* IEEE 754 binary32 and binary64. A float is its bit pattern (a natural   *)
(* number); a finite one stands for sign * m * 2^e.                        *)
(***************************************************************************)
EXTENDS Z

Prec(b) == IF b = 32 THEN 24 ELSE 53
EMin(b) == IF b = 32 THEN -149 ELSE -1074       \* exponent of the last place of subnormals
Mant(b) == Prec(b) - 1
ExpMax(b) == IF b = 32 THEN 255 ELSE 2047
SignBit(b) == ZPow2(b - 1)
InfBits(b) == ZMul(ExpMax(b), ZPow2(Mant(b)))
QNaN(b) == ZAdd(InfBits(b), ZPow2(Mant(b) - 1))

IsNeg(x, b) == ZLe(SignBit(b), x)
Mag(x, b) == IF IsNeg(x, b) THEN ZSub(x, SignBit(b)) ELSE x
IsNan(x, b) == ZLt(InfBits(b), Mag(x, b))
IsInf(x, b) == ZEq(Mag(x, b), InfBits(b))
IsFinite(x, b) == ZLt(Mag(x, b), InfBits(b))
BExp(x, b) == ZInt(ZShl(Mag(x, b), -Mant(b)))
FracBits(x, b) == ZMod(Mag(x, b), ZPow2(Mant(b)))
\* a finite float is FM * 2^FE
FM(x, b) == LET m == IF BExp(x, b) = 0 THEN FracBits(x, b) ELSE ZAdd(FracBits(x, b), ZPow2(Mant(b)))
            IN IF IsNeg(x, b) THEN ZNeg(m) ELSE m
FE(x, b) == IF BExp(x, b) = 0 THEN EMin(b) ELSE BExp(x, b) - 1 + EMin(b)
\* position on the line of floats: neighbours differ by one, both zeros are 0
Ord(x, b) == IF IsNeg(x, b) THEN ZNeg(Mag(x, b)) ELSE x
FromOrd(o, b) == IF ZLt(o, "0") THEN ZAdd(ZNeg(o), SignBit(b)) ELSE o
Negate(x, b) == IF IsNeg(x, b) THEN ZSub(x, SignBit(b)) ELSE ZAdd(x, SignBit(b))

\* fixed point with w places: exact when w + FE >= 0
ToFixed(x, b, w) == LET e == FE(x, b) + w IN
                    IF e >= 0 THEN ZShl(FM(x, b), e) ELSE ZDivR(FM(x, b), ZPow2(-e))

\* p / q (q > 0) to the nearest multiple of 2^e, ties to even
HalfEven(p, q, e) ==
   LET n == IF e >= 0 THEN p ELSE ZShl(p, -e)
       d == IF e >= 0 THEN ZShl(q, e) ELSE q
       f == ZDiv(n, d)
       twice == ZSub(ZMul(2, ZSub(n, ZMul(f, d))), d)
   IN IF ZSgn(twice) < 0 \/ (ZSgn(twice) = 0 /\ ZModInt(f, 2) = 0) THEN f ELSE ZAdd(f, 1)
\* the bits of the float nearest to p / q; overflow gives infinity
Nearest(p, q, b) ==
   IF ZSgn(p) = 0 THEN "0"
   ELSE LET a == ZAbs(p)
            \* 2^k <= a/q < 2^(k+2), then the exponent of the last place
            k == ZBits(a) - ZBits(q) - 1
            e0 == k - Mant(b)
            k2 == IF ZLe(ZShl(q, IF k + 1 >= 0 THEN k + 1 ELSE 0), ZShl(a, IF k + 1 < 0 THEN -k - 1 ELSE 0)) THEN k + 1 ELSE k
            e == IF k2 - Mant(b) < EMin(b) THEN EMin(b) ELSE k2 - Mant(b)
            m == HalfEven(a, q, e)
            \* m may have carried into the next binade: the bits still come out right
            r == ZAdd(m, ZMul(e - EMin(b), ZPow2(Mant(b))))
            bits == IF ZLe(InfBits(b), r) THEN InfBits(b) ELSE r
        IN IF ZSgn(p) < 0 THEN ZAdd(bits, SignBit(b)) ELSE bits
NearestDec(m, e, b) == IF e >= 0 THEN Nearest(m, ZPow10(e), b) ELSE Nearest(ZMul(m, ZPow10(-e)), "1", b)
NearestFixed(f, w, b) == Nearest(f, ZPow2(w), b)
UlpsApart(x, y, b) == ZAbs(ZSub(Ord(x, b), Ord(y, b)))
\* exactly representable integers and powers
OfInt(n, b) == Nearest(ZI(n), "1", b)
===============================================================================
