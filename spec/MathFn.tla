--------------------------------- MODULE MathFn ---------------------------------
(***************************************************************************)
(* The functions of a mathematics library on floats, exactly: Real gives   *)
(* <<"real", f>> with f in fixed point with w places, <<"nan">> outside    *)
(* the domain, <<"inf", negative>> at a pole, or <<"skip">> where nothing  *)
(* is said. x and y are finite floats of b bits.                           *)
(***************************************************************************)
EXTENDS RealFn, Float, TLC

Zlt0(x) == ZSgn(x) < 0
\* cube root of x >= 0 at precision w, by bisection on integers
RECURSIVE CbrtFind(_, _, _)
CbrtFind(n, lo, hi) == IF ZLe(ZSub(hi, lo), "1") THEN lo
                       ELSE LET m == TLCEval(ZShl(ZAdd(lo, hi), -1)) IN
                            IF ZLe(ZMul(m, ZMul(m, m)), n) THEN CbrtFind(n, m, hi) ELSE CbrtFind(n, lo, m)
FCbrt(x, w) == LET n == ZShl(x, 2 * w) IN CbrtFind(n, "0", ZPow2(ZBits(n) \div 3 + 1))
FSinh(x, w) == LET v == w + 8 e == TLCEval(FExp(ZShl(x, 8), v)) IN ZShl(ZSub(e, FExp(ZShl(ZNeg(x), 8), v)), -9)
FCosh(x, w) == LET v == w + 8 e == TLCEval(FExp(ZShl(x, 8), v)) IN ZShl(ZAdd(e, FExp(ZShl(ZNeg(x), 8), v)), -9)
FTanh(x, w) == LET v == w + 8 e == TLCEval(FExp(ZShl(ZNeg(ZAbs(x)), 9), v))       \* e^(-2|x|)
                   r == FDiv(ZSub(One(v), e), ZAdd(One(v), e), v)
               IN Rescale(IF Zlt0(x) THEN ZNeg(r) ELSE r, v, w)
FAsinh(x, w) == LET v == w + 16 a == ZShl(ZAbs(x), 16)
                    r == Rescale(FLn(ZAdd(a, FSqrt(ZAdd(FMul(a, a, v), One(v)), v)), v), v, w)
                IN IF Zlt0(x) THEN ZNeg(r) ELSE r
FAcosh(x, w) == LET v == 2 * w + 16 a == ZShl(x, v - w) IN Rescale(FLn(ZAdd(a, FSqrt(ZSub(FMul(a, a, v), One(v)), v)), v), v, w)
FAtanh(x, w) == LET v == w + 16 a == ZShl(x, 16) IN Rescale(Half(FLn(FDiv(ZAdd(One(v), a), ZSub(One(v), a), v), v)), v, w)
FAtan2(y, x, w) == LET q == TLCEval(FAtan(FDiv(y, x, w), w)) IN
                   IF ZSgn(x) > 0 THEN q ELSE IF ZSgn(y) < 0 THEN ZSub(q, FPi(w)) ELSE ZAdd(q, FPi(w))

Real(name, xb, yb, b, w) ==
   LET x == TLCEval(ToFixed(xb, b, w))
       y == TLCEval(ToFixed(yb, b, w))
       s == ZSgn(FM(xb, b))
       t == ZSgn(FM(yb, b))
       cmp1 == ZCmp(ZAbs(x), One(w))
       F(f) == <<"real", f>>
   IN CASE name = "sin" -> F(FSin(x, w))
        [] name = "cos" -> F(FCos(x, w))
        [] name = "tan" -> F(FDiv(FSin(x, w), FCos(x, w), w))
        [] name = "asin" -> IF cmp1 > 0 THEN <<"nan">> ELSE F(FAsinR(x, One(w), w))
        [] name = "acos" -> IF cmp1 > 0 THEN <<"nan">> ELSE F(FAcosR(x, One(w), w))
        [] name = "atan" -> F(FAtan(x, w))
        [] name = "atan2" -> IF s = 0 \/ t = 0 THEN <<"skip">> ELSE F(FAtan2(x, y, w))
        [] name = "exp" -> F(FExp(x, w))
        [] name = "exp2" -> F(FExp(FMul(x, FLn2(w), w), w))
        [] name = "exp_m1" -> F(ZSub(FExp(x, w), One(w)))
        [] name = "ln" -> IF s = 0 THEN <<"inf", TRUE>> ELSE IF s < 0 THEN <<"nan">> ELSE F(FLn(x, w))
        [] name = "log2" -> IF s = 0 THEN <<"inf", TRUE>> ELSE IF s < 0 THEN <<"nan">> ELSE F(FDiv(FLn(x, w), FLn2(w), w))
        [] name = "log10" -> IF s = 0 THEN <<"inf", TRUE>> ELSE IF s < 0 THEN <<"nan">> ELSE F(FDiv(FLn(x, w), FLn(ZMul(10, One(w)), w), w))
        [] name = "ln_1p" -> LET u == ZAdd(x, One(w)) IN
                             IF ZSgn(u) = 0 THEN <<"inf", TRUE>> ELSE IF ZSgn(u) < 0 THEN <<"nan">> ELSE F(FLn(u, w))
        [] name = "powf" -> IF s <= 0 THEN <<"skip">> ELSE F(FPow(x, y, w))
        [] name = "sinh" -> F(FSinh(x, w))
        [] name = "cosh" -> F(FCosh(x, w))
        [] name = "tanh" -> F(FTanh(x, w))
        [] name = "asinh" -> F(FAsinh(x, w))
        [] name = "acosh" -> IF ZLt(x, One(w)) THEN <<"nan">> ELSE F(FAcosh(x, w))
        [] name = "atanh" -> IF cmp1 > 0 THEN <<"nan">> ELSE IF cmp1 = 0 THEN <<"inf", s < 0>> ELSE F(FAtanh(x, w))
        [] name = "cbrt" -> <<"real", IF s < 0 THEN ZNeg(FCbrt(ZAbs(x), w)) ELSE FCbrt(x, w)>>
        [] name = "hypot" -> F(FSqrt(ZAdd(FMul(x, x, w), FMul(y, y, w)), w))
        [] name = "sqrt" -> IF s < 0 THEN <<"nan">> ELSE F(FSqrt(x, w))
        [] OTHER -> <<"skip">>
\* is got within n units in the last place of the truth?
Near(got, truth, n, b, w) ==
   CASE truth[1] = "skip" -> TRUE
     [] truth[1] = "nan" -> got = "nan"
     [] truth[1] = "inf" -> got # "nan" /\ ZEq(got, IF truth[2] THEN ZAdd(InfBits(b), SignBit(b)) ELSE InfBits(b))
     [] OTHER -> got # "nan" /\ ZLe(UlpsApart(got, NearestFixed(truth[2], w, b), b), n)
===============================================================================
