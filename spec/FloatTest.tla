------------------------------- MODULE FloatTest --------------------------------
EXTENDS Float, TLC
\* every binary32 exponent, and neighbours of boundaries, round trip
RT(x, b) == LET m == FM(x, b) e == FE(x, b) IN
            (IF e >= 0 THEN Nearest(ZShl(m, e), "1", b) ELSE Nearest(m, ZPow2(-e), b))
Pats(b) == UNION {{ZAdd(ZMul(e, ZPow2(Mant(b))), k) : k \in {"0", "1", "2", ZSub(ZPow2(Mant(b)), 1), ZRandBits(ZMix(e, 9), Mant(b))}} :
                  e \in {0, 1, 2, 3, 100, ExpMax(b) \div 2, ExpMax(b) \div 2 + 1, ExpMax(b) - 1}}
ASSUME \A b \in {32, 64} : \A x \in Pats(b) : (RT(x, b) = x \/ (x = "0")) /\ IsFinite(x, b)
       /\ (x # "0" => RT(ZAdd(x, SignBit(b)), b) = ZAdd(x, SignBit(b)))
ASSUME NearestDec("1", 0, 32) = "1065353216" /\ NearestDec("1", 1, 32) = "1036831949" /\ NearestDec("-2", 0, 64) = "13835058055282163712"
ASSUME NearestDec("1", 1, 64) = "4591870180066957722" /\ NearestDec("3", 1, 64) = "4599075939470750515"
ASSUME NearestDec("340282356779733661637539395458142568447", 0, 32) = "2139095039"
ASSUME NearestDec("340282356779733661637539395458142568448", 0, 32) = InfBits(32)
ASSUME NearestDec("16777217", 0, 32) = NearestDec("16777216", 0, 32) /\ NearestDec("16777219", 0, 32) = NearestDec("16777220", 0, 32)
ASSUME NearestDec("1", 45, 32) = "1" /\ NearestDec("7", 46, 32) = "0" /\ NearestDec("71", 47, 32) = "1"
ASSUME IsNan(QNaN(64), 64) /\ IsInf(ZAdd(InfBits(32), SignBit(32)), 32) /\ ~IsNan(InfBits(32), 32)
ASSUME ToFixed("1069547520", 32, 4) = "24"
ASSUME \A k \in 1..40 : LET x == ZRandBits(ZMix(k, 1), 62) y == ZRandBits(ZMix(k, 2), 55) IN
   \* the nearest float is at most half a unit away, and no neighbour is nearer
   y # "0" => LET n == Nearest(x, y, 64)
                  D(z) == ZAbs(ZSub(ZMul(ToFixed(z, 64, 1074), y), ZShl(x, 1074)))
              IN ZLe(D(n), D(ZAdd(n, 1))) /\ ZLe(D(n), D(ZSub(n, 1)))
===============================================================================
