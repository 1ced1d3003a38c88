--------------------------------- MODULE MathLib ---------------------------------
(***************************************************************************)
(* The generated mathematics library: what every function of it returns.   *)
(* Numbers are bit patterns of b bits; "nan" stands for every NaN.         *)
(*                                                                         *)
(* Truth gives the mathematical value of a call, with the limits at        *)
(* infinities, poles and ends of domains. Tolerance gives how far from it  *)
(* a result may be: a number of units (2^-24 or 2^-53) times the condition *)
(* of the function at that place.                                          *)
(***************************************************************************)
EXTENDS MathFn

\* Arguments: f a float, i a signed integer, u an index.
OneArg == {"sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "exp2", "exp_m1",
           "ln", "log2", "log10", "ln_1p", "sqrt", "cbrt", "recip"}
TwoArgs == {"atan2", "powf", "hypot", "log"}
Kind(f) == CASE f \in TwoArgs \/ f = "negate_on_odd" -> <<"f", "f">>
             [] f = "powi" -> <<"f", "i">>
             [] f \in {"dnorm", "qnorm"} -> <<"f", "f", "f">>
             [] f \in {"runif", "rnorm"} -> <<"u", "f", "f">>
             [] OTHER -> <<"f">>

MaxI2(a, c) == IF a < c THEN c ELSE a
MinI2(a, c) == IF a < c THEN a ELSE c
\* |x| < 2^Lg(x) for a finite x
Lg(x, b) == ZBits(FM(x, b)) + FE(x, b)
IsZero(x, b) == Mag(x, b) = "0"
SignOf(x, b) == IF IsZero(x, b) THEN 0 ELSE IF IsNeg(x, b) THEN -1 ELSE 1
OneBits(b) == IF b = 32 THEN "1065353216" ELSE "4607182418800017408"
LgMax(b) == IF b = 32 THEN 128 ELSE 1024         \* every finite float is below 2^LgMax
LgMin(b) == IF b = 32 THEN -126 ELSE -1022       \* the smallest normal float is 2^LgMin
Subnormal(x, b) == ~IsZero(x, b) /\ BExp(x, b) = 0
\* floor of |x| up to a limit
Whole(x, b, limit) == IF Lg(x, b) > 24 THEN limit ELSE MinI2(limit, ZInt(ZShl(ZAbs(FM(x, b)), FE(x, b))))

(***************************************************************************)
(* Precision: enough for the arguments to be exact and for the result to   *)
(* have over 100 places more than it is judged to.                         *)
(***************************************************************************)
ArgPlaces(x, b) == IF IsFinite(x, b) THEN MaxI2(0, -FE(x, b)) ELSE 0
Small(f, a, b) ==         \* about how many zeros after the point a result can have
   CASE \E j \in 1..Len(a) : Kind(f)[j] = "f" /\ ~IsFinite(a[j], b) -> 0
     [] f \in {"exp", "exp2"} -> MinI2(1100, (Whole(a[1], b, 1100) * 3) \div 2 + 4)
     [] f \in {"powf", "powi"} ->
           LET n == IF f = "powi" THEN MinI2(1100, ZInt(ZMin(ZAbs(a[2]), 1100))) ELSE Whole(a[2], b, 1100) + 1
               e == Lg(a[1], b)
           IN MinI2(1100, MinI2(n, 1100) * ((IF e < 0 THEN -e ELSE e) + 1) + 4)
     [] f = "recip" -> MaxI2(0, Lg(a[1], b))
     [] f = "dnorm" -> 200
     [] OTHER -> 0
RECURSIVE ArgsPlaces(_, _, _)
ArgsPlaces(f, a, b) == IF a = <<>> THEN 0
                       ELSE MaxI2(IF Kind(f)[Len(a)] = "f" THEN ArgPlaces(a[Len(a)], b) ELSE 0, ArgsPlaces(f, SubSeq(a, 1, Len(a) - 1), b))
PlacesOf(f, a, b) == 160 + (IF f = "hypot" THEN ArgsPlaces(f, a, b) ELSE 0) + MaxI2(ArgsPlaces(f, a, b), Small(f, a, b))

(***************************************************************************)
(* The truth: <<"real", v>>, <<"nan">>, <<"inf", negative>>, <<"skip">>,    *)
(* or <<"sign", v>> for a value of which the sign is open.                 *)
(***************************************************************************)
RealV(v) == <<"real", v>>
NanV == <<"nan">>
InfV(neg) == <<"inf", neg>>
Skip == <<"skip">>
FL2(x, w) == FDiv(FLn(x, w), FLn2(w), w)
Odd(n) == ZModInt(n, 2) = 1

\* one argument, infinite
AtInf(f, neg, w) ==
   LET V(p) == RealV(IF neg THEN ZNeg(p) ELSE p) IN
   CASE f \in {"sin", "cos", "tan", "asin", "acos", "atanh"} -> NanV
     [] f = "atan" -> V(Half(FPi(w)))
     [] f \in {"sinh", "asinh", "cbrt"} -> InfV(neg)
     [] f = "cosh" -> InfV(FALSE)
     [] f = "tanh" -> V(One(w))
     [] f \in {"acosh", "ln", "log2", "log10", "ln_1p", "sqrt"} -> IF neg THEN NanV ELSE InfV(FALSE)
     [] f \in {"exp", "exp2"} -> IF neg THEN RealV("0") ELSE InfV(FALSE)
     [] f = "exp_m1" -> IF neg THEN RealV(ZNeg(One(w))) ELSE InfV(FALSE)
     [] f = "recip" -> RealV("0")
     [] OTHER -> Skip
PowTruth(x, yInf, yNeg, y, yOdd, yInteger, b, w) ==
   \* x a float; y finite in fixed point, or infinite
   LET s == SignOf(x, b)
       yZero == ~yInf /\ y = "0"
       above == ZLt(OneBits(b), Mag(x, b))
       neg == s < 0 /\ yOdd
   IN CASE yZero -> RealV(One(w))
        [] x = OneBits(b) -> RealV(One(w))
        [] s < 0 /\ ~yInteger -> Skip
        [] s = 0 -> IF yNeg THEN InfV(FALSE) ELSE RealV("0")
        [] IsInf(x, b) -> IF yNeg THEN RealV("0") ELSE InfV(neg)
        [] yInf -> IF above = yNeg THEN RealV("0") ELSE InfV(FALSE)
        [] OTHER -> LET e == FMul(y, FL2(ZAbs(ToFixed(x, b, w)), w), w)
                        v == FPow(ZAbs(ToFixed(x, b, w)), y, w)
                    IN IF ZLt(ZMul(3000, One(w)), ZAbs(e)) THEN (IF ZSgn(e) < 0 THEN RealV("0") ELSE InfV(neg))
                       ELSE RealV(IF neg THEN ZNeg(v) ELSE v)
Atan2Truth(y, x, b, w) ==
   LET pi == FPi(w)
       V(p) == RealV(IF IsNeg(y, b) THEN ZNeg(p) ELSE p)
   IN CASE IsInf(x, b) /\ IsInf(y, b) -> V(IF IsNeg(x, b) THEN ZShl(ZMul(3, pi), -2) ELSE ZShl(pi, -2))
        [] IsInf(x, b) -> IF IsNeg(x, b) THEN (IF IsZero(y, b) THEN <<"sign", pi>> ELSE V(pi)) ELSE RealV("0")
        [] IsInf(y, b) -> V(Half(pi))
        [] IsZero(y, b) /\ IsZero(x, b) -> IF IsNeg(x, b) THEN <<"zero or pi">> ELSE RealV("0")
        [] IsZero(y, b) -> IF IsNeg(x, b) THEN <<"sign", pi>> ELSE RealV("0")
        [] IsZero(x, b) -> V(Half(pi))
        [] OTHER -> Real("atan2", y, x, b, w)
LogTruth(x, y, b, w) ==
   LET sx == SignOf(x, b) sy == SignOf(y, b)
       yBelow == ZLt(Mag(y, b), OneBits(b))
       xBelow == ZLt(Mag(x, b), OneBits(b))
   IN CASE sx < 0 \/ sy < 0 -> NanV
        [] (sx = 0 \/ IsInf(x, b)) /\ (sy = 0 \/ IsInf(y, b)) -> NanV
        [] x = OneBits(b) /\ y = OneBits(b) -> NanV
        [] sy = 0 \/ IsInf(y, b) -> RealV("0")
        [] y = OneBits(b) -> Skip
        [] sx = 0 -> InfV(~yBelow)
        [] IsInf(x, b) -> InfV(yBelow)
        [] OTHER -> RealV(FDiv(FLn(ToFixed(x, b, w), w), FLn(ToFixed(y, b, w), w), w))
Truth(f, a, b, w) ==
   LET float == {j \in 1..Len(a) : Kind(f)[j] = "f"} IN
   CASE f = "powf" /\ (a[1] = OneBits(b) \/ IsZero(a[2], b)) -> RealV(One(w))
     [] f = "powi" /\ ZEq(a[2], "0") -> RealV(One(w))
     [] f = "hypot" /\ (\E j \in float : IsInf(a[j], b)) -> Skip
     [] \E j \in float : IsNan(a[j], b) -> NanV
     [] f \in OneArg /\ IsInf(a[1], b) -> AtInf(f, IsNeg(a[1], b), w)
     [] f = "recip" -> IF IsZero(a[1], b) THEN InfV(IsNeg(a[1], b)) ELSE RealV(FDiv(One(w), ToFixed(a[1], b, w), w))
     \* so far out that a fixed point number of the result would not do
     [] f \in {"exp", "exp2", "exp_m1", "sinh", "cosh", "tanh"} /\ Lg(a[1], b) > 11 -> AtInf(f, IsNeg(a[1], b), w)
     [] f \in OneArg -> Real(f, a[1], "0", b, w)
     [] f = "atan2" -> Atan2Truth(a[1], a[2], b, w)
     [] f = "log" -> LogTruth(a[1], a[2], b, w)
     [] f = "hypot" -> Real("hypot", a[1], a[2], b, w)
     [] f = "powf" -> PowTruth(a[1], IsInf(a[2], b), IsNeg(a[2], b), IF IsInf(a[2], b) THEN "0" ELSE ToFixed(a[2], b, w), FALSE, FALSE, b, w)
     [] f = "powi" -> PowTruth(a[1], FALSE, ZSgn(a[2]) < 0, ZMul(a[2], One(w)), Odd(a[2]), TRUE, b, w)
     [] f = "dnorm" -> CASE SignOf(a[3], b) <= 0 \/ ~IsFinite(a[2], b) \/ ~IsFinite(a[3], b) -> Skip
                         [] IsInf(a[1], b) -> RealV("0")
                         [] OTHER -> LET s == ToFixed(a[3], b, w)
                                         z == FDiv(ZSub(ToFixed(a[1], b, w), ToFixed(a[2], b, w)), s, w)
                                     IN IF ZLt(ZMul(200, One(w)), ZAbs(z)) THEN RealV("0") ELSE RealV(FDiv(FPhi(z, w), s, w))
     [] f = "qnorm" -> CASE ~IsFinite(a[2], b) \/ ~IsFinite(a[3], b) \/ SignOf(a[3], b) <= 0 -> Skip
                         [] IsZero(a[1], b) -> InfV(TRUE)
                         [] IsNeg(a[1], b) \/ ZLt(OneBits(b), a[1]) -> NanV
                         [] a[1] = OneBits(b) -> InfV(FALSE)
                         [] OTHER -> <<"quantile">>
     [] OTHER -> Skip

(***************************************************************************)
(* Tolerances.                                                             *)
(***************************************************************************)
Abs1(w, t) == ZMax(One(w), ZAbs(t))
Cond(f, a, t, b, w) ==
   LET X == IF IsFinite(a[1], b) THEN ToFixed(a[1], b, w) ELSE "0"
       x == ZAbs(X)
       xp == ZAdd(One(w), x)
   IN CASE f \in {"sin", "cos", "sin_cos"} -> xp
        [] f = "tan" -> FMul(ZAdd(One(w), FMul(t, t, w)), xp, w)
        [] f \in {"asin", "acos", "atan", "atan2", "tanh"} -> One(w)
        [] f \in {"sinh", "cosh", "exp_m1"} -> FMul(Abs1(w, t), xp, w)
        [] f = "acosh" -> ZAdd(Abs1(w, t), IF x = One(w) THEN "0" ELSE FDiv(One(w), FSqrt(ZSub(FMul(x, x, w), One(w)), w), w))
        [] f \in {"asinh", "atanh", "ln", "log2", "log10", "ln_1p"} -> Abs1(w, t)
        [] f = "exp" -> FMul(ZAbs(t), xp, w)
        [] f \in {"powf", "powi"} ->
              IF x = "0" THEN "0"
              ELSE LET y == IF f = "powi" THEN ZMul(ZAbs(a[2]), One(w)) ELSE ZAbs(ToFixed(a[2], b, w))
                   IN FMul(ZAbs(t), ZAdd(One(w), FMul(y, Abs1(w, FL2(x, w)), w)), w)
        [] f = "log" -> LET lx == FL2(x, w) ly == FL2(ToFixed(a[2], b, w), w) IN
                        FDiv(ZAdd(Abs1(w, lx), FMul(ZAbs(t), Abs1(w, ly), w)), ZAbs(ly), w)
        [] f = "dnorm" -> LET z == FDiv(ZSub(X, ToFixed(a[2], b, w)), ToFixed(a[3], b, w), w) IN
                          FMul(ZAbs(t), ZAdd(One(w), FMul(z, z, w)), w)
        [] OTHER -> ZAbs(t)
\* tenths of units, for 32 and 64 bits
Tenths(f, b) ==
   LET K(p, q) == IF b = 32 THEN p ELSE q IN
   CASE f \in {"sin", "cos", "sin_cos"} -> K(40, 35)
     [] f = "tan" -> K(30, 26)
     [] f = "asin" -> K(40, 45)
     [] f = "acos" -> K(70, 135)
     [] f = "atan" -> K(48, 140)
     [] f = "atan2" -> K(66, 64)
     [] f = "sinh" -> K(26, 20)
     [] f = "cosh" -> K(32, 32)
     [] f = "tanh" -> K(46, 46)
     [] f = "asinh" -> K(42, 60)
     [] f = "acosh" -> K(26, 32)
     [] f = "atanh" -> K(38, 36)
     [] f = "exp" -> K(19, 21)
     [] f = "exp2" -> K(21, 28)
     [] f = "exp_m1" -> K(24, 22)
     [] f = "ln" -> K(29, 39)
     [] f = "log2" -> K(29, 38)
     [] f = "log10" -> K(39, 30)
     [] f = "ln_1p" -> K(29, 22)
     [] f \in {"powf", "powi"} -> K(22, 28)
     [] f = "log" -> K(20, 27)
     [] f = "sqrt" -> K(24, 22)
     [] f = "hypot" -> K(36, 38)
     [] f = "cbrt" -> K(22, 22)
     [] f = "recip" -> K(26, 38)
     [] f = "dnorm" -> K(40, 38)
     [] OTHER -> 0
Tolerance(f, a, t, b, w) == ZAdd(16, ZDiv(ZShl(ZMul(Tenths(f, b), Cond(f, a, t, b, w)), -Prec(b)), 10))

\* The quantile is an interpolation over [0.0001, 0.9999]: its error, in millionths of the deviation, by the distance from 1/2 in 10000ths.
QuantileError(d, b) ==
   LET K(p, q) == IF b = 32 THEN p ELSE q IN
   CASE d <= 2000 -> K(800, 75)
     [] d <= 4000 -> K(4000, 500)
     [] d <= 4900 -> K(44000, 8000)
     [] d <= 4990 -> K(700000, 200000)
     [] OTHER -> K(800000, 350000)
QuantileWhy(a, b, got, w) ==
   LET p == ToFixed(a[1], b, w)
       d == ZInt(ZDiv(ZMul(10000, ZAbs(ZSub(p, Half(One(w))))), One(w))) + 1
       m == ToFixed(a[2], b, w)
       s == ToFixed(a[3], b, w)
       z == FDiv(ZSub(ToFixed(got, b, w), m), s, w)
       \* what adding the mean may round away
       e == ZAdd(ZDiv(ZMul(QuantileError(d, b), One(w)), 1000000), ZShl(FDiv(ZMul(2, ZAbs(m)), s, w), -Prec(b)))
   IN IF got = "nan" \/ ~IsFinite(got, b) THEN "no number"
      ELSE IF ZLe(FNorm(ZSub(z, e), w), p) /\ ZLe(p, FNorm(ZAdd(z, e), w)) THEN "" ELSE "not the quantile"

\* "" when the call f(a) may return got
Why(f, a, b, got) ==
   LET w == PlacesOf(f, a, b)
       truth == TLCEval(Truth(f, a, b, w))
       Real1(t) ==
          LET tol == TLCEval(Tolerance(f, a, t, b, w))
              bound == IF LgMax(b) + w - 1 >= 0 THEN ZShl(1, LgMax(b) + w - 1) ELSE "1"
              beyond == ZLe(ZMul(2, bound), ZAdd(ZAbs(t), tol))
              tiny == ZShl(1, MaxI2(0, LgMin(b) + w))
              inf == IF ZSgn(t) < 0 THEN ZAdd(InfBits(b), SignBit(b)) ELSE InfBits(b)
          IN CASE got = "nan" -> "not a number"
               \* next to a pole
               [] f = "tan" /\ ZLt(One(w), ZAbs(t)) /\ ZLe(ZAbs(t), ZMul(4, tol)) -> ""
               \* within a factor of two of the largest float a result may count as too large
               [] ZLe(bound, ZAdd(ZAbs(t), tol)) /\ got = inf -> ""
               [] ~IsFinite(got, b) -> "infinite"
               [] ZLt(ZAbs(t), tiny) -> IF ZLe(ZAbs(ToFixed(got, b, w)), ZAdd(tol, ZMul(2, tiny))) THEN "" ELSE "not tiny"
               [] ZLe(ZAbs(ZSub(ToFixed(got, b, w), t)), tol) -> ""
               [] OTHER -> "inaccurate"
   IN CASE got = "panic" \/ got = "none" -> "no result"
        [] truth[1] = "skip" -> ""
        [] truth[1] = "nan" -> IF got = "nan" THEN "" ELSE "a value outside the domain"
        [] truth[1] = "inf" -> IF got # "nan" /\ ZEq(got, IF truth[2] THEN ZAdd(InfBits(b), SignBit(b)) ELSE InfBits(b)) THEN "" ELSE "not infinite"
        [] truth[1] = "zero or pi" -> IF got # "nan" /\ (IsZero(got, b) \/ Real1(IF IsNeg(got, b) THEN ZNeg(FPi(w)) ELSE FPi(w)) = "") THEN "" ELSE "not a number"
        [] truth[1] = "quantile" -> QuantileWhy(a, b, got, 200)
        [] truth[1] = "sign" -> IF got # "nan" THEN Real1(IF IsNeg(got, b) THEN ZNeg(truth[2]) ELSE truth[2]) ELSE "not a number"
        [] OTHER -> Real1(truth[2])

(***************************************************************************)
(* Helpers that are defined by what they do to bits.                       *)
(***************************************************************************)
M64 == ZPow2(64)
ShrXor(z, n) == ZXor(z, ZShl(z, -n))
Splitmix(index) ==
   LET z == ZMod(ZMul(ZAdd(index, 1), "11400714819323198485"), M64)       \* 9e3779b97f4a7c15
       z1 == ZMod(ZMul(ShrXor(z, 30), "13787848793156543929"), M64)        \* bf58476d1ce4e5b9
       z2 == ZMod(ZMul(ShrXor(z1, 27), "10723151780598845931"), M64)       \* 94d049bb133111eb
   IN ShrXor(z2, 31)
\* The fraction of [0, 1) that an index stands for: 23 or 52 bits of the mixed index below the two lowest, of the width of the number.
Fraction(index, b) == LET z == ZMod(Splitmix(index), ZPow2(b)) IN ZMod(ZShl(z, -2), ZPow2(Mant(b)))
===============================================================================
