-------------------------------- MODULE MathScen ---------------------------------
(***************************************************************************)
(* Which calls of the generated libraries are made. A call is              *)
(* <<library, function, arguments>>. The libraries of 32 and 64 bits are   *)
(* r, h: Rust with decimal and with hexadecimal constants; c, d: the same  *)
(* in C; n: the Rust library with unfused multiply-add, as C computes it;  *)
(* s, t: for portable SIMD; m: Rust with the library's own methods.        *)
(***************************************************************************)
EXTENDS MathLib
CONSTANTS Seed, Mode, Count

H(k) == ZMix(ZMix(ZMix(Seed, ZHash(Mode, 1000003)), 131), k)
Bias(b) == IF b = 32 THEN 127 ELSE 1023
\* The fields of a float: random, or next to a power of two.
RandFrac(h, b) == CASE Pick(h, 8) = 0 -> ZI(Pick(Split(h, 1), 3))
                    [] Pick(h, 8) = 1 -> ZSub(ZPow2(Mant(b)), 1 + Pick(Split(h, 1), 3))
                    [] Pick(h, 8) = 2 -> ZMul(Pick(Split(h, 1), 16), ZPow2(Mant(b) - 4))
                    [] OTHER -> ZRandBits(Split(h, 1), Mant(b))
\* 2^lo <= x < 2^hi
LogU(h, lo, hi, b) == ZAdd(ZMul(lo + Pick(Split(h, 3), hi - lo) + Bias(b), ZPow2(Mant(b))), RandFrac(Split(h, 4), b))
Either(h, x, b) == IF Pick(Split(h, 5), 2) = 0 THEN x ELSE Negate(x, b)
SLogU(h, lo, hi, b) == Either(h, LogU(Split(h, 6), lo, hi, b), b)
\* uniform in (-p/q, p/q)
Uni(h, p, q, b) == Nearest(ZMul(ZSub(ZRandBits(Split(h, 7), 60), ZPow2(59)), p), ZMul(q, ZPow2(59)), b)
Abs(x, b) == Mag(x, b)
\* a float or one close to it
Around(h, x, b) == LET d == CASE Pick(h, 3) = 0 -> 0
                              [] Pick(h, 3) = 1 -> Pick(Split(h, 8), 7) - 3
                              [] OTHER -> Pick(Split(h, 8), 2001) - 1000
                   IN FromOrd(ZAdd(Ord(x, b), d), b)
Dec(m, e, b) == NearestDec(ZI(m), e, b)
Int2(n, b) == OfInt(n, b)
Pow2F(n, b) == ZMul(n + Bias(b), ZPow2(Mant(b)))
PiTimes(k, b) == NearestFixed(ZDivR(ZMul(k, FPi(200)), 8), 200, b)
\* any normal number
AnyFloat(h, b) == SLogU(h, LgMin(b), LgMax(b), b)
Of4(h, a1, a2, a3, a4) == CASE Pick(h, 4) = 0 -> a1 [] Pick(h, 4) = 1 -> a2 [] Pick(h, 4) = 2 -> a3 [] OTHER -> a4

(***************************************************************************)
(* Arguments over the domain of a function.                                *)
(***************************************************************************)
Sqrt2By2(b) == NearestFixed(FSqrt(Half(One(200)), 200), 200, b)
Mean(h, b) == IF Pick(h, 3) = 0 THEN "0" ELSE Uni(Split(h, 1), 4, 1, b)
Deviation(h, b) == IF Pick(h, 3) = 0 THEN OneBits(b) ELSE LogU(Split(h, 1), -6, 6, b)
InDomain(f, h, b) ==
   LET g == Split(h, 20) g2 == Split(h, 21) c == Pick(Split(h, 22), 4)
       wide == IF b = 32 THEN 60 ELSE 500
   IN CASE f \in {"sin", "cos", "tan", "sin_cos"} ->
              <<Of4(h, Uni(g, 7, 1, b), SLogU(g, -26, 6, b), SLogU(g, 0, 17, b), Around(g, PiTimes(Pick(g2, 129) - 64, b), b))>>
        [] f \in {"asin", "acos"} -> <<Of4(h, Uni(g, 1, 1, b), SLogU(g, -26, 0, b), Either(g2, Around(g, Sqrt2By2(b), b), b),
                                           Either(g2, ZMin(Around(g, OneBits(b), b), OneBits(b)), b))>>
        [] f = "atan" -> <<Of4(h, Uni(g, 3, 1, b), SLogU(g, -26, 33, b), Either(g2, Around(g, OneBits(b), b), b), SLogU(g, -3, 3, b))>>
        [] f \in {"sinh", "cosh", "tanh"} -> <<Of4(h, Uni(g, 2, 1, b), SLogU(g, -26, 0, b), SLogU(g, -2, IF b = 32 THEN 7 ELSE 10, b), Uni(g, 30, 1, b))>>
        [] f = "asinh" -> <<Of4(h, Uni(g, 2, 1, b), SLogU(g, -26, 0, b), SLogU(g, -3, wide, b), Uni(g, 30, 1, b))>>
        [] f = "acosh" -> <<Of4(h, Abs(Around(g, OneBits(b), b), b), LogU(g, 0, 1, b), LogU(g, 0, wide, b), LogU(g, 0, 6, b))>>
        [] f = "atanh" -> <<Of4(h, Uni(g, 1, 1, b), SLogU(g, -26, 0, b), Either(g2, ZMin(Around(g, OneBits(b), b), OneBits(b)), b), Uni(g, 1, 2, b))>>
        [] f \in {"exp", "exp_m1"} -> <<Of4(h, Uni(g, 2, 1, b), SLogU(g, -26, IF b = 32 THEN 7 ELSE 10, b), Uni(g, 20, 1, b), SLogU(g, -3, 5, b))>>
        [] f = "exp2" -> <<Of4(h, Uni(g, 2, 1, b), SLogU(g, -26, IF b = 32 THEN 7 ELSE 10, b), Uni(g, IF b = 32 THEN 126 ELSE 1022, 1, b),
                               Around(g, Nearest(ZI(2 * Pick(g2, 120) - 119), "2", b), b))>>
        [] f \in {"ln", "log2", "log10"} ->
              <<Of4(h, LogU(g, -2, 2, b), LogU(g, LgMin(b), LgMax(b), b), Around(g, Pow2F(Pick(g2, 9) - 4, b), b),
                    Around(g, ZAdd(Pow2F(Pick(g2, 9) - 4, b), ZPow2(Mant(b) - 1)), b))>>
        [] f = "ln_1p" -> <<Of4(h, Uni(g, 1, 1, b), LogU(g, -30, LgMax(b) - 1, b), SLogU(g, -30, 0, b), Negate(ZMin(Around(g, OneBits(b), b), OneBits(b)), b))>>
        [] f \in {"sqrt", "sqrt_approx"} -> <<IF c = 0 THEN LogU(g, -4, 4, b) ELSE LogU(g, LgMin(b) + 1, LgMax(b), b)>>
        [] f \in {"cbrt", "recip", "recip_approx", "cbrt_approx"} -> <<IF c = 0 THEN SLogU(g, -4, 4, b) ELSE SLogU(g, LgMin(b) + 1, LgMax(b) - 2, b)>>
        [] f = "atan2" -> LET y == IF Pick(h, 2) = 0 THEN Uni(g, 3, 1, b) ELSE SLogU(g, -30, 30, b)
                              x == IF Pick(h, 2) = 0 THEN Uni(g2, 3, 1, b) ELSE SLogU(g2, -30, 30, b)
                          IN CASE c = 0 /\ Pick(g, 2) = 0 -> <<y, Either(g2, Around(g2, y, b), b)>>
                               [] c = 0 /\ Pick(g, 8) = 1 -> <<y, "0">>
                               [] c = 0 /\ Pick(g, 8) = 3 -> <<"0", x>>
                               [] OTHER -> <<y, x>>
        [] f = "hypot" -> <<IF Pick(h, 2) = 0 THEN Uni(g, 3, 1, b) ELSE SLogU(g, -30, 30, b),
                            IF Pick(h, 2) = 0 THEN Uni(g2, 3, 1, b) ELSE SLogU(g2, -30, 30, b)>>
        [] f = "powf" -> Of4(h, <<LogU(g, -6, 7, b), Uni(g2, 8, 1, b)>>, <<LogU(g, -2, 2, b), SLogU(g2, -17, 5, b)>>,
                             <<LogU(g, -2, 4, b), Int2(Pick(g2, 17) - 8, b)>>, <<Around(g, OneBits(b), b), Uni(g2, 1000, 1, b)>>)
        [] f = "powi" -> Of4(h, <<SLogU(g, -4, 5, b), ZI(Pick(g2, 19) - 9)>>, <<SLogU(g, -1, 1, b), ZI(Pick(g2, 101) - 50)>>,
                             <<Either(g2, Around(g, OneBits(b), b), b), ZI(Pick(g2, 2001) - 1000)>>, <<Int2(Pick(g, 15) - 7, b), ZI(Pick(g2, 9) - 2)>>)
        [] f = "log" -> <<IF Pick(h, 2) = 0 THEN LogU(g, -3, 7, b) ELSE LogU(g, -33, 33, b),
                          CASE c = 0 -> Int2(2 + Pick(g2, 9), b) [] c = 1 -> LogU(g2, -17, -1, b) [] OTHER -> LogU(g2, 1, 20, b)>>
        [] f = "dnorm" -> LET m == Mean(g, b) s == Deviation(g2, b) w == 1200
                              z == FMul(ZMul(ZSub(ZRandBits(Split(h, 23), 40), ZPow2(39)), 9), ToFixed(s, b, w), 39)
                          IN <<NearestFixed(ZAdd(ToFixed(m, b, w), z), w, b), m, s>>
        [] f = "qnorm" -> LET e == Pick(Split(h, 24), 4)
                              far == Dec(<<1, 10, 100, 1000>>[e + 1] + Pick(g, <<9, 90, 900, 3999>>[e + 1]), 4, b)
                              p == CASE c = 0 -> Nearest(ZAdd(ZPow2(60), ZSub(ZRandBits(g, 60), ZPow2(59))), ZPow2(61), b)
                                     [] c = 1 -> far
                                     [] c = 2 -> Nearest(ZSub(10000, ZInt(ZDivR(ZMul(ToFixed(far, b, 60), 10000), One(60)))), "10000", b)
                                     [] OTHER -> Around(g, Nearest(1, 2, b), b)
                          IN <<p, Mean(Split(h, 25), b), Deviation(Split(h, 26), b)>>
        [] OTHER -> <<>>

(***************************************************************************)
(* Scenarios: <<what is to hold, the calls>>.                              *)
(***************************************************************************)
Lib(h, kinds) == LET k == PickSeq(Split(h, 30), kinds) IN k
Width(h) == IF Pick(Split(h, 31), 2) = 0 THEN 32 ELSE 64
LibName(k, b) == k \o ZI(b)
Products == <<"r", "c", "r", "c", "h", "d">>
RustOnly == <<"r", "r", "h">>
Accurate == <<"sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "exp2", "exp_m1",
              "ln", "log2", "log10", "ln_1p", "sqrt", "cbrt", "recip", "atan2", "powf", "powi", "hypot", "log", "dnorm", "qnorm">>
Call(k, b, f, a) == <<LibName(k, b), f, a>>

\* the quantile beyond the interval that it is interpolated over
Tails(b) == <<Dec(1, 5, b), Dec(1, 6, b), Dec(999999, 6, b)>>
IsTail(k) == k <= 12
G01Scen(k) ==
   LET h == H(k)
       b == Width(h)
       f == Accurate[(k % Len(Accurate)) + 1]
   IN IF IsTail(k) THEN LET c == IF k % 2 = 0 THEN 32 ELSE 64 IN
                      <<"value", <<Call(IF k <= 6 THEN "r" ELSE "c", c, "qnorm", <<Tails(c)[(((k - 1) \div 2) % 3) + 1], "0", OneBits(c)>>)>> >>
      ELSE <<"value", <<Call(Lib(h, Products), b, f, InDomain(f, Split(h, 1), b))>> >>

Specials(b) == <<QNaN(b), InfBits(b), Negate(InfBits(b), b), "0", SignBit(b), OneBits(b), Negate(OneBits(b), b), Int2(2, b), Int2(-2, b),
                 Nearest(1, 2, b), Nearest(-1, 2, b), Pow2F(LgMax(b) - 8, b), Negate(Pow2F(LgMax(b) - 8, b), b), Pow2F(LgMin(b) + 8, b),
                 \* the limits of normal numbers, and the numbers next to 1 and -1
                 Pow2F(LgMin(b), b), Negate(Pow2F(LgMin(b), b), b), ZAdd(Pow2F(LgMin(b), b), 1), ZSub(InfBits(b), 1), Negate(ZSub(InfBits(b), 1), b),
                 ZAdd(OneBits(b), 1), ZSub(OneBits(b), 1), Negate(ZAdd(OneBits(b), 1), b), Negate(ZSub(OneBits(b), 1), b)>>
Ones == <<"sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "exp2", "exp_m1",
          "ln", "log2", "log10", "ln_1p", "sqrt", "cbrt", "recip">>
Libs8 == <<"r32", "r64", "c32", "c64", "h32", "h64", "d32", "d64">>
LibBits(l) == IF l \in {"r32", "c32", "h32", "d32", "n32"} THEN 32 ELSE 64
NS == 23
NSpecial1 == 22 * NS * 8
Special1(k) == LET l == Libs8[(k % 8) + 1] b == LibBits(l) f == Ones[((k \div 8) \div NS) + 1] v == Specials(b)[((k \div 8) % NS) + 1] IN
               <<"value", << <<l, f, <<v>> >> >> >>
\* pairs of special values
Pairs == 9
Twos == <<"atan2", "powf", "hypot", "log", "dnorm", "qnorm">>
NSpecial2 == Pairs * Pairs * 6 * 4
Special2(k) == LET l == Libs8[(k % 4) + 1] b == LibBits(l) j == k \div 4 f == Twos[(j \div (Pairs * Pairs)) + 1]
                   x == Specials(b)[(j % Pairs) + 1]
                   y == Specials(b)[((j \div Pairs) % Pairs) + 1]
               IN <<"value", << <<l, f, IF f \in {"dnorm", "qnorm"} THEN <<x, y, OneBits(b)>> ELSE <<x, y>> >> >> >>
OddFuncs == <<"sin", "tan", "asin", "atan", "sinh", "tanh", "asinh", "atanh", "cbrt", "recip">>
EvenFuncs == <<"cos", "cosh">>
\* where results are promised to be accurate; elsewhere to be numbers where there is a value
G04Scen(k) ==
   LET j == k - 1 - NSpecial1 - NSpecial2
       h == H(k)
       b == Width(h)
       l == Lib(h, Products)
       c == Pick(Split(h, 32), 10)
       g == Split(h, 33)
   IN CASE k <= NSpecial1 -> Special1(k - 1)
        [] k <= NSpecial1 + NSpecial2 -> Special2(k - 1 - NSpecial1)
        [] c <= 2 -> LET f == PickSeq(g, Ones) IN <<"value", <<Call(l, b, f, <<AnyFloat(Split(h, 34), b)>>)>> >>
        [] c = 3 -> LET f == PickSeq(g, <<"powi", "powf", "hypot", "atan2", "log">>) IN
                    <<"value", <<Call(l, b, f, <<IF f \in {"atan2", "hypot"} THEN SLogU(Split(h, 34), LgMin(b) + 3, LgMax(b) - 3, b)
                                                 ELSE IF Pick(Split(h, 38), 2) = 0 THEN AnyFloat(Split(h, 34), b) ELSE LogU(Split(h, 34), -4, 4, b),
                                                 IF f = "powi" THEN ZI(Pick(Split(h, 35), 2001) - 1000)
                                                 ELSE IF f \in {"atan2", "hypot"} THEN SLogU(Split(h, 35), LgMin(b) + 3, LgMax(b) - 3, b)
                                                 ELSE SLogU(Split(h, 35), -8, 10, b)>>)>> >>
        [] c <= 5 -> LET f == PickSeq(g, OddFuncs) x == InDomain(f, Split(h, 36), b)[1] IN
                     <<"odd", <<Call(l, b, f, <<x>>), Call(l, b, f, <<Negate(x, b)>>)>> >>
        [] c = 6 -> LET f == PickSeq(g, EvenFuncs) x == InDomain(f, Split(h, 36), b)[1] IN
                    <<"even", <<Call(l, b, f, <<x>>), Call(l, b, f, <<Negate(x, b)>>)>> >>
        [] c = 7 -> LET a == InDomain("atan2", Split(h, 36), b) IN
                    <<"quadrants", <<Call(l, b, "atan2", a), Call(l, b, "atan2", <<Negate(a[1], b), a[2]>>),
                                     Call(l, b, "atan2", <<a[1], Negate(a[2], b)>>), Call(l, b, "atan2", <<Negate(a[1], b), Negate(a[2], b)>>)>> >>
        [] c = 8 -> LET a == InDomain("sin", Split(h, 36), b) r == Lib(h, RustOnly) IN
                    <<"pair", <<Call(r, b, "sin_cos", a)>> >>
        [] OTHER -> LET x == SLogU(g, 17, LgMax(b), b) IN
                    <<"bounded", <<Call(l, b, "sin", <<x>>), Call(l, b, "cos", <<x>>)>> >>

\* numbers about halfway between integers, of any size
HalfWay(h, b) == LET e == Pick(Split(h, 40), Prec(b) + 3) IN
                 Around(Split(h, 41), Nearest(ZAdd(ZMul(2, ZRandBits(Split(h, 42), e + 1)), Pick(Split(h, 43), 2)), "2", b), b)
Index(h) == IF Pick(h, 3) = 0 THEN ZRandBits(Split(h, 44), 63) ELSE IF Pick(h, 3) = 1 THEN ZI(Pick(Split(h, 44), 1000)) ELSE ZRandBits(Split(h, 44), 20)
\* the uniform number that the normal generator takes the quantile of
UnitMin(b) == Dec(1, 6, b)
FSubF(x, y, b) == LET w == 1200 IN NearestFixed(ZSub(ToFixed(x, b, w), ToFixed(y, b, w)), w, b)
FAddF(x, y, b) == LET w == 1200 IN NearestFixed(ZAdd(ToFixed(x, b, w), ToFixed(y, b, w)), w, b)
FMulF(x, y, b) == LET w == 1200 IN NearestFixed(FMul(ToFixed(x, b, w), ToFixed(y, b, w), w), w, b)
UnitMax(b) == FSubF(OneBits(b), UnitMin(b), b)
FractionF(index, b) == Nearest(Fraction(index, b), ZPow2(Mant(b)), b)
Scaled(index, lo, hi, b) == FAddF(FMulF(FractionF(index, b), FSubF(hi, lo, b), b), lo, b)
G05Scen(k) ==
   LET h == H(k)
       b == Width(h)
       l == Lib(h, Products)
       c == k % 8
       g == Split(h, 45)
       x == CASE Pick(g, 4) = 0 -> AnyFloat(Split(h, 46), b) [] Pick(g, 4) = 1 -> Uni(Split(h, 46), 20, 1, b)
              [] OTHER -> Either(Split(h, 47), HalfWay(Split(h, 46), b), b)
   IN CASE c \in {0, 1} -> <<"round", <<Call(l, b, "round", <<x>>)>> >>
        [] c = 2 -> <<"nextafter", <<Call(l, b, "nextafter", <<IF Pick(g, 3) = 0 THEN ZI(Pick(g, 50)) ELSE AnyFloat(Split(h, 46), b)>>)>> >>
        [] c = 3 -> <<"negate_on_odd", <<Call(l, b, "negate_on_odd",
                       <<IF Lg(x, b) < b - 1 THEN x ELSE Uni(g, 1000, 1, b),
                         IF Pick(Split(g, 1), 5) = 0 THEN PickSeq(Split(g, 2), Specials(b)) ELSE AnyFloat(Split(g, 3), b)>>)>> >>
        [] c = 4 -> LET f == PickSeq(g, <<"recip_approx", "sqrt_approx", "cbrt_approx">>) IN
                    <<"approx", <<Call(l, b, f, InDomain(f, Split(h, 46), b))>> >>
        [] c \in {5, 6} -> LET lo == IF Pick(g, 2) = 0 THEN "0" ELSE Uni(Split(g, 1), 10, 1, b)
                               hi == IF Pick(g, 2) = 0 THEN OneBits(b) ELSE Uni(Split(g, 2), 1000, 1, b)
                           IN <<"uniform", <<Call(l, b, "runif", <<Index(Split(h, 46)), lo, hi>>)>> >>
        [] OTHER -> LET i == Index(Split(h, 46)) m == Mean(Split(g, 1), b) s == Deviation(Split(g, 2), b)
                        u == Scaled(i, UnitMin(b), UnitMax(b), b)
                    IN <<"normal", <<Call(l, b, "rnorm", <<i, m, s>>), Call(l, b, "qnorm", <<FromOrd(ZSub(Ord(u, b), 1), b), m, s>>),
                                     Call(l, b, "qnorm", <<u, m, s>>), Call(l, b, "qnorm", <<FromOrd(ZAdd(Ord(u, b), 1), b), m, s>>)>> >>

\* C against Rust
Both == Accurate \o <<"round", "nextafter", "negate_on_odd", "recip_approx", "sqrt_approx", "cbrt_approx", "runif", "rnorm">>
C02Args(f, h, b) ==
   CASE f = "runif" -> <<Index(h), Uni(Split(h, 1), 10, 1, b), Uni(Split(h, 2), 1000, 1, b)>>
     [] f = "rnorm" -> <<Index(h), Mean(Split(h, 1), b), Deviation(Split(h, 2), b)>>
     [] f = "round" -> <<Either(h, HalfWay(Split(h, 1), b), b)>>
     [] f = "nextafter" -> <<SLogU(h, -30, 30, b)>>
     [] f = "negate_on_odd" -> <<SLogU(h, -3, 30, b), SLogU(Split(h, 1), -30, 30, b)>>
     [] Pick(Split(h, 3), 4) = 0 -> [j \in 1..Len(Kind(f)) |-> IF Kind(f)[j] = "i" THEN ZI(Pick(Split(h, 4), 41) - 20)
                                                              ELSE IF f = "dnorm" /\ j = 3 THEN LogU(Split(h, 4 + j), -9, 9, b)
                                                              ELSE SLogU(Split(h, 4 + j), -9, 9, b)]
     [] OTHER -> InDomain(f, Split(h, 5), b)
C02Scen(k) ==
   LET h == H(k)
       b == Width(h)
       f == Both[(k % Len(Both)) + 1]
       a == C02Args(f, Split(h, 1), b)
   IN <<"same", <<Call("c", b, f, a), Call("d", b, f, a), Call("n", b, f, a), Call("r", b, f, a)>> >>

\* every lane of a vector against Rust; m is Rust with the library's own methods
Lanes == SelectSeq(Both, LAMBDA f : f \notin {"runif", "rnorm"})
S02Scen(k) ==
   LET h == H(k)
       b == Width(h)
       f == Lanes[(k % Len(Lanes)) + 1]
       a == IF Pick(Split(h, 9), 8) = 0 THEN [j \in 1..Len(Kind(f)) |-> IF Kind(f)[j] = "i" THEN ZI(Pick(Split(h, 4), 2001) - 1000) ELSE AnyFloat(Split(h, 20 + j), b)]
            ELSE C02Args(f, Split(h, 1), b)
   IN <<"lanes", <<Call("s", b, f, a), Call("t", b, f, a), Call("m", b, f, a)>> >>

(***************************************************************************)
(* Constants: the value that the name states.                              *)
(***************************************************************************)
Consts == <<"LOG2_SHIFT", "LOG2_OFFSET", "NAN", "INFINITY", "MIN_POSITIVE", "ONE_MASK", "ONE_BITS", "EXP2_ONE", "EXP2_SCALE", "EXP2_MIN",
            "EXP2_MAX", "ONE_THIRD", "TWO_THIRDS", "PI", "PI_BY_2", "TAN_PI_BY_8", "PI_BY_8", "LOG2_E", "RECIP_LOG2_E", "RECIP_LOG2_10",
            "RECIP_PI", "RECIP_2PI", "SQRT_RECIP_2PI">>
G02Scen(k) == <<"constant", << <<Libs8[((k - 1) % 8) + 1], Consts[((k - 1) \div 8) + 1], <<>> >> >> >>
ConstTruth(name, b) ==
   LET w == 300
       Fl(v) == NearestFixed(v, w, b)
       pi == FPi(w)
       In(n) == Nearest(n, "1", b)
   IN CASE name = "LOG2_SHIFT" -> ZI(Mant(b))
        [] name = "LOG2_OFFSET" -> ZI(Bias(b))
        [] name = "NAN" -> "nan"
        [] name = "INFINITY" -> InfBits(b)
        [] name = "MIN_POSITIVE" -> ZPow2(Mant(b))
        [] name = "ONE_MASK" -> ZSub(ZPow2(Mant(b)), 1)
        [] name = "ONE_BITS" -> OneBits(b)
        [] name = "EXP2_ONE" -> In(OneBits(b))
        [] name = "EXP2_SCALE" -> In(ZPow2(Mant(b)))
        [] name = "EXP2_MIN" -> In(ZI(-Bias(b)))
        [] name = "EXP2_MAX" -> In(ZI(Bias(b)))
        [] name = "ONE_THIRD" -> Nearest(1, 3, b)
        [] name = "TWO_THIRDS" -> Nearest(2, 3, b)
        [] name = "PI" -> Fl(pi)
        [] name = "PI_BY_2" -> Fl(Half(pi))
        [] name = "TAN_PI_BY_8" -> Fl(ZSub(FSqrt(ZMul(2, One(w)), w), One(w)))
        [] name = "PI_BY_8" -> Fl(ZShl(pi, -3))
        [] name = "LOG2_E" -> Fl(FDiv(One(w), FLn2(w), w))
        [] name = "RECIP_LOG2_E" -> Fl(FLn2(w))
        [] name = "RECIP_LOG2_10" -> Fl(FDiv(FLn2(w), FLn(ZMul(10, One(w)), w), w))
        [] name = "RECIP_PI" -> Fl(FDiv(One(w), pi, w))
        [] name = "RECIP_2PI" -> Fl(FDiv(One(w), ZMul(2, pi), w))
        [] name = "SQRT_RECIP_2PI" -> Fl(FSqrt(FDiv(One(w), ZMul(2, pi), w), w))
        [] OTHER -> "none"

Scen(k) == CASE Mode = "G01" -> G01Scen(k)
             [] Mode = "G02" -> G02Scen(k)
             [] Mode = "G04" -> G04Scen(k)
             [] Mode = "G05" -> G05Scen(k)
             [] Mode = "S02" -> S02Scen(k)
             [] OTHER -> C02Scen(k)
RECURSIVE Words(_)
Words(a) == IF a = <<>> THEN "" ELSE " " \o ZI(Head(a)) \o Words(SubSeq(a, 2, Len(a)))
RECURSIVE Calls(_)
Calls(c) == IF c = <<>> THEN "" ELSE c[1][1] \o " " \o c[1][2] \o Words(c[1][3]) \o (IF Len(c) > 1 THEN ";" ELSE "") \o Calls(SubSeq(c, 2, Len(c)))
===============================================================================
