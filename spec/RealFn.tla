-------------------------------- MODULE RealFn ---------------------------------
(***************************************************************************)
(* The elementary functions as enclosures in fixed point: an integer n     *)
(* stands for n / 2^w. Every operator is accurate to a few units of        *)
(* 2^-w (2^8 of them at most over the ranges used; RealFnTest.tla checks   *)
(* that on identities and on known digits), and w is always chosen so that *)
(* this is far below the tolerance being judged.                           *)
(***************************************************************************)
EXTENDS Z

FromDec(m, e, w) == IF e >= 0 THEN ZDivR(ZShl(m, w), ZPow10(e)) ELSE ZMul(ZShl(m, w), ZPow10(-e))
FromRat(p, q, w) == ZDivR(ZShl(p, w), q)
One(w) == ZPow2(w)
FMul(a, b, w) == ZShl(ZMul(a, b), -w)
FDiv(a, b, w) == ZDivR(ZShl(a, w), b)
FSqrt(a, w) == ZSqrt(ZShl(a, w))
Rescale(a, v, w) == ZShl(a, w - v)      \* from precision v to precision w
Half(a) == ZShl(a, -1)
Dbl(a) == ZShl(a, 1)

\* sum over k >= 1 of the terms t_k with t_(k+1) = t_k * y / ((k + c0) * (k + c1)), until they vanish
RECURSIVE FactDef(_, _, _, _, _, _)
FactDef(t, y, k, acc, w, step) ==
   IF t = "0" \/ t = "-1" THEN acc
   ELSE LET den == IF step = 1 THEN k ELSE k * (k + 1)
            u == ZDiv(FMul(t, y, w), den)
        IN FactDef(u, y, k + step, ZAdd(acc, u), w, step)
Fact(t, y, k, acc, w, step) == FactDef(t, y, k, acc, w, step)      \* TLC evaluates it in Java

\* sum over j of s^j * y^j * t / (2j + 1): arctangent (sg = -1) and its hyperbolic cousin (sg = 1)
RECURSIVE OddsDef(_, _, _, _, _, _)
OddsDef(t, y, k, acc, w, sg) ==
   IF t = "0" \/ t = "-1" THEN acc
   ELSE LET u == FMul(t, y, w)
            v == IF sg < 0 THEN ZNeg(u) ELSE u
        IN OddsDef(v, y, k + 2, ZAdd(acc, ZDiv(v, k)), w, sg)
Odds(t, y, k, acc, w, sg) == OddsDef(t, y, k, acc, w, sg)      \* TLC evaluates it in Java
AtanSmall(x, w) == LET v == w + 12
                       s == ZShl(x, 12)
                   IN Rescale(Odds(s, FMul(s, s, v), 3, s, v, -1), v, w)
AtanhSmall(x, w) == LET v == w + 12
                        s == ZShl(x, 12)
                    IN Rescale(Odds(s, FMul(s, s, v), 3, s, v, 1), v, w)

\* Constants, to 1500 bits, each computed once.
TopBits == 1500
PiTop == LET w == TopBits + 24 IN
         Rescale(ZSub(ZMul(16, AtanSmall(FromRat(1, 5, w), w)), ZMul(4, AtanSmall(FromRat(1, 239, w), w))), w, TopBits)
Ln2Top == LET w == TopBits + 24 IN Rescale(ZMul(2, AtanhSmall(FromRat(1, 3, w), w)), w, TopBits)
FPi(w) == Rescale(PiTop, TopBits, w)
FLn2(w) == Rescale(Ln2Top, TopBits, w)

\* e^x. The result may be large: its relative accuracy is 2^-w as well.
RECURSIVE SquaresDef(_, _, _)
SquaresDef(a, n, w) == IF n = 0 THEN a ELSE SquaresDef(FMul(a, a, w), n - 1, w)
Squares(a, n, w) == SquaresDef(a, n, w)      \* TLC evaluates it in Java
FExp(x, w) ==
   IF ZLt(x, ZNeg(ZMul(w + 8, One(w)))) THEN "0" ELSE
   LET k == ZInt(ZDivR(x, FLn2(w)))
       v == w + 40 + (IF k > 0 THEN k ELSE 0)
       r == ZSub(ZShl(x, v - w), ZMul(k, FLn2(v)))
       s == ZShl(r, -8)
       e == Fact(One(v), s, 1, One(v), v, 1)
   IN IF k < -w - 8 THEN "0" ELSE ZShl(Squares(e, 8, v), w - v + k)

\* ln x for x > 0, x at precision w
FLn(x, w) ==
   LET v == w + 24
       k == ZBits(x) - w             \* x in [2^(k-1), 2^k)
       m == IF v - w - k >= 0 THEN ZShl(x, v - w - k) ELSE ZShl(x, v - w - k)   \* in [1/2, 1)
       big == ZLt(m, ZShl(ZMul(3, One(v)), -2))
       m2 == IF big THEN Dbl(m) ELSE m     \* in [3/4, 3/2)
       k2 == IF big THEN k - 1 ELSE k
       z == FDiv(ZSub(m2, One(v)), ZAdd(m2, One(v)), v)
   IN IF x = "0" THEN ZNeg(ZShl(1, 2 * w))      \* outside the domain
      ELSE Rescale(ZAdd(ZMul(k2, FLn2(v)), Dbl(AtanhSmall(z, v))), v, w)

\* sine and cosine of r, |r| <= 1
SinSmall(r, w) == LET v == w + 12
                      s == ZShl(r, 12)
                  IN Rescale(Fact(s, ZNeg(FMul(s, s, v)), 2, s, v, 2), v, w)
CosSmall(r, w) == LET v == w + 12
                      s == ZShl(r, 12)
                  IN Rescale(Fact(One(v), ZNeg(FMul(s, s, v)), 1, One(v), v, 2), v, w)
\* x = q * pi/2 + r; the quadrant q mod 4 and r
Reduce(x, w) ==
   LET v == w + 24 + ZBits(x)
       v2 == IF v > w + 900 THEN w + 900 ELSE v
       y == ZShl(x, v2 - w)
       q == ZDivR(y, Half(FPi(v2)))
       r == ZSub(y, ZDivR(ZMul(q, FPi(v2)), 2))
   IN <<ZModInt(q, 4), Rescale(r, v2, w)>>
FSin(x, w) == LET q == Reduce(x, w) IN
   CASE q[1] = 0 -> SinSmall(q[2], w)
     [] q[1] = 1 -> CosSmall(q[2], w)
     [] q[1] = 2 -> ZNeg(SinSmall(q[2], w))
     [] OTHER -> ZNeg(CosSmall(q[2], w))
FCos(x, w) == LET q == Reduce(x, w) IN
   CASE q[1] = 0 -> CosSmall(q[2], w)
     [] q[1] = 1 -> ZNeg(SinSmall(q[2], w))
     [] q[1] = 2 -> ZNeg(CosSmall(q[2], w))
     [] OTHER -> SinSmall(q[2], w)

\* arctangent: |x| > 1 by reciprocal, then two halvings
RECURSIVE FAtan(_, _)
FAtan(x, w) ==
   IF ZLt(x, "0") THEN ZNeg(FAtan(ZNeg(x), w))
   ELSE IF ZLt(One(w), x) THEN ZSub(Half(FPi(w)), FAtan(FDiv(One(w), x, w), w))
   ELSE LET v == w + 12
            Halve(a) == FDiv(a, ZAdd(One(v), FSqrt(ZAdd(One(v), FMul(a, a, v)), v)), v)
            s == Halve(Halve(ZShl(x, 12)))
        IN Rescale(ZMul(4, AtanSmall(s, v)), v, w)

\* arcsine and arccosine, |x| <= 1; x is a rational p / q so that 1 - x^2 is exact
FAsinR(p, q, w) ==
   LET v == w + 24
       d == ZSub(ZMul(q, q), ZMul(p, p))
   IN IF d = "0" THEN (IF ZLt(p, "0") THEN ZNeg(Half(FPi(w))) ELSE Half(FPi(w)))
      ELSE LET e == ZSqrt(ZDivR(ZShl(d, 4 * v), ZMul(q, q)))     \* sqrt(1 - x^2) at precision 2v
               f == FromRat(p, q, 2 * v)
           IN IF ZLt(ZAbs(f), e) THEN Rescale(FAtan(FDiv(f, e, 2 * v), 2 * v), 2 * v, w)
              ELSE LET a == ZSub(Half(FPi(2 * v)), FAtan(FDiv(e, ZAbs(f), 2 * v), 2 * v)) IN
                   Rescale(IF ZLt(p, "0") THEN ZNeg(a) ELSE a, 2 * v, w)
FAcosR(p, q, w) == ZSub(Half(FPi(w)), FAsinR(p, q, w))

\* x^y for x > 0
FPow(x, y, w) == LET v == w + 40 + 2 * ZBits(ZShl(y, -w)) IN
                 Rescale(FExp(FMul(ZShl(y, v - w), FLn(ZShl(x, v - w), v), v), v), v, w)

\* error function: 2/sqrt(pi) e^(-x^2) sum 2^n x^(2n+1) / (1 3 5 ... (2n+1)), all terms of one sign
RECURSIVE ErfSumDef(_, _, _, _, _)
ErfSumDef(t, y, k, acc, w) ==
   IF t = "0" THEN acc
   ELSE LET u == ZDiv(FMul(t, y, w), k) IN ErfSumDef(u, y, k + 2, ZAdd(acc, u), w)
ErfSum(t, y, k, acc, w) == ErfSumDef(t, y, k, acc, w)      \* TLC evaluates it in Java
RECURSIVE FErf(_, _)
FErf(x, w) ==
   IF ZLt(x, "0") THEN ZNeg(FErf(ZNeg(x), w))
   ELSE IF ZLt(ZMul(w, One(w)), FMul(x, x, w)) THEN One(w)       \* 1 - erf(x) < e^-w
   ELSE LET g == ZInt(ZDivR(ZMul(3, FMul(x, x, w)), ZMul(2, One(w)))) + 32
            v == w + g
            s == ZShl(x, g)
            y == FMul(s, s, v)
            sum == ErfSum(s, Dbl(y), 3, s, v)
        IN Rescale(FDiv(Dbl(FMul(FExp(ZNeg(y), v), sum, v)), FSqrt(FPi(v), v), v), v, w)

\* normal density and cumulative probability of the standard distribution
FPhi(x, w) == FDiv(FExp(ZNeg(Half(FMul(x, x, w))), w), FSqrt(Dbl(FPi(w)), w), w)
FNorm(x, w) == LET v == w + 16
                   s == ZShl(x, 16)
               IN Rescale(Half(ZAdd(One(v), FErf(FDiv(s, FSqrt(Dbl(One(v)), v), v), v))), v, w)
===============================================================================
