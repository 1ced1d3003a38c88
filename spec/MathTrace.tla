-------------------------------- MODULE MathTrace --------------------------------
(***************************************************************************)
(* Judges the recorded results of the calls of each scenario. Constants    *)
(* and calls that only this stage makes use of are judged as values.       *)
(***************************************************************************)
EXTENDS MathScen, Json
CONSTANTS Chunk, ObsFile, BadFile
VARIABLES i, scn, n
Obs == ndJsonDeserialize(ObsFile)
Rec == Obs[i]
Bad(why) == ZEmit(BadFile, ZI(i) \o "\t" \o ZI(Rec.id) \o "\t" \o ZI(n) \o "\t" \o why)
Init == i \in 1..Len(Obs) /\ scn = <<>> /\ n = 0

C(j) == scn[2][j]
F(j) == C(j)[2]
A(j) == C(j)[3]
B(j) == LibBits(C(j)[1])
R(j) == Rec.r[j]
Lost(r) == r = "panic" \/ r = "none" \/ r = "died"
\* Accuracy is promised for arguments of moderate size.
Promised(f, a, b) ==
   CASE \E j \in 1..Len(a) : Kind(f)[j] = "f" /\ Subnormal(a[j], b) -> FALSE
     [] f \in {"sin", "cos", "tan", "sin_cos"} -> ~IsFinite(a[1], b) \/ Lg(a[1], b) <= 18
     [] f \in {"asinh", "acosh"} -> ~IsFinite(a[1], b) \/ Lg(a[1], b) <= (IF b = 32 THEN 61 ELSE 501)
     [] f = "log" -> ~IsFinite(a[2], b) \/ IsZero(a[2], b) \/ Lg(a[2], b) > 1 \/ Lg(a[2], b) < 0 \/ a[2] = OneBits(b)
     [] f = "qnorm" -> IsTail(Rec.id) \/ IsNan(a[1], b) \/ IsNeg(a[1], b) \/ IsZero(a[1], b) \/ ZLe(OneBits(b), a[1])
                       \/ (ZLe(Dec(1, 4, b), a[1]) /\ ZLe(a[1], Dec(9999, 4, b)))
     [] OTHER -> TRUE
Value(j) == IF Lost(R(j)) THEN "no result" ELSE IF ~Promised(F(j), A(j), B(j)) THEN "" ELSE Why(F(j), A(j), B(j), R(j))

\* x and y equal up to rounding: a few units in their last place, or what accuracy allows
Alike(x, y, f, a, b) ==
   IF x = "nan" \/ y = "nan" THEN x = y
   ELSE \/ ZLe(UlpsApart(x, y, b), 4)
        \/ IsFinite(x, b) /\ IsFinite(y, b) /\ f # "" /\
           (LET w == PlacesOf(f, a, b) t == Truth(f, a, b, w) IN
            t[1] = "real" /\ ZLe(ZAbs(ZSub(ToFixed(x, b, w), ToFixed(y, b, w))), ZMul(2, Tolerance(f, a, t[2], b, w))))
Opposite(x, b) == IF x = "nan" THEN x ELSE Negate(x, b)
OddWhy == IF Lost(R(1)) \/ Lost(R(2)) THEN "no result"
          ELSE IF Alike(Opposite(R(1), B(1)), R(2), F(1), A(2), B(1)) THEN "" ELSE "not odd"
EvenWhy == IF Lost(R(1)) \/ Lost(R(2)) THEN "no result"
           ELSE IF Alike(R(1), R(2), F(1), A(2), B(1)) THEN "" ELSE "not even"
QuadrantsWhy ==
   LET b == B(1)
       Q(j) == R(j)
       w == 200
       T(j) == ToFixed(Q(j), b, w)
       pi == FPi(w)
       tol == ZShl(One(w), 4 - Prec(b))
       zero == IsZero(A(1)[1], b)
   IN CASE \E j \in 1..4 : Lost(Q(j)) \/ Q(j) = "nan" \/ ~IsFinite(Q(j), b) -> "no number"
        [] \E j \in 1..4 : ZLt(ZAdd(pi, tol), ZAbs(T(j))) -> "beyond pi"
        [] zero -> ""
        [] ZLt(tol, ZAbs(ZAdd(T(1), T(2)))) \/ ZLt(tol, ZAbs(ZAdd(T(3), T(4)))) -> "the half planes differ"
        [] ~IsZero(A(1)[2], b) /\ ZLt(tol, ZAbs(ZSub(ZAdd(ZAbs(T(1)), ZAbs(T(3))), pi))) -> "the quadrants differ"
        [] \E j \in 1..4 : IsNeg(A(j)[1], b) # IsNeg(Q(j), b) /\ ZLt(tol, ZAbs(T(j))) -> "wrong half plane"
        [] OTHER -> ""
BoundedWhy ==
   LET b == B(1) w == 200 IN
   IF \E j \in 1..2 : Lost(R(j)) \/ R(j) = "nan" \/ ~IsFinite(R(j), b) \/ ZLt(ZAdd(One(w), ZShl(One(w), 4 - Prec(b))), ZAbs(ToFixed(R(j), b, w)))
   THEN "beyond 1" ELSE ""
PairWhy == LET b == B(1) IN
           IF Len(Rec.r) # 2 \/ Lost(R(1)) THEN "no result"
           ELSE LET s == Why("sin", A(1), b, R(1)) c == Why("cos", A(1), b, Rec.r[2]) IN
                IF s # "" THEN "sine " \o s ELSE IF c # "" THEN "cosine " \o c ELSE ""
RoundWhy ==
   LET b == B(1) w == 1200
       x == ToFixed(A(1)[1], b, w)
       r == ToFixed(R(1), b, w)
   IN CASE Lost(R(1)) \/ R(1) = "nan" \/ ~IsFinite(R(1), b) -> "no number"
        [] ZMod(r, One(w)) # "0" -> "no integer"
        \* adding the half may be rounded
        [] ZLt(ZAdd(Half(One(w)), ZShl(One(w), -Prec(b))), ZAbs(ZSub(x, r))) -> "not the nearest integer"
        [] ZAbs(ZSub(x, r)) = Half(One(w)) /\ ZLt(ZAbs(r), ZAbs(x)) -> "a tie was rounded to zero"
        [] OTHER -> ""
ParityWhy == LET b == B(1)
                 odd == ZModInt(ZShl(ZAbs(FM(A(1)[1], b)), FE(A(1)[1], b)), 2) = 1
                 want == IF odd THEN Negate(A(1)[2], b) ELSE A(1)[2]
             IN IF (IsNan(A(1)[2], b) /\ R(1) = "nan") \/ R(1) = want THEN "" ELSE "wrong sign"
ApproxWhy ==
   LET b == B(1)
       f == CASE F(1) = "recip_approx" -> "recip" [] F(1) = "sqrt_approx" -> "sqrt" [] OTHER -> "cbrt"
       w == PlacesOf(f, A(1), b) + 40
       t == Truth(f, A(1), b, w)[2]
       percent10 == IF f = "recip" THEN 70 ELSE 35
   IN IF Lost(R(1)) \/ R(1) = "nan" \/ ~IsFinite(R(1), b) THEN "no number"
      ELSE IF ZLe(ZMul(1000, ZAbs(ZSub(ToFixed(R(1), b, w), t))), ZMul(percent10, ZAbs(t))) THEN "" ELSE "no approximation"
UniformWhy ==
   LET b == B(1) w == 1200
       fr == ZDiv(ZMul(Fraction(A(1)[1], b), One(w)), ZPow2(Mant(b)))
       lo == ToFixed(A(1)[2], b, w) hi == ToFixed(A(1)[3], b, w)
       want == ZAdd(FMul(fr, ZSub(hi, lo), w), lo)
       got == ToFixed(R(1), b, w)
       tol == ZShl(ZMul(4, ZAdd(ZAbs(lo), ZAbs(hi))), -Prec(b))
   IN CASE Lost(R(1)) \/ R(1) = "nan" \/ ~IsFinite(R(1), b) -> "no number"
        [] A(1)[2] = "0" /\ A(1)[3] = OneBits(b) -> IF got = want THEN "" ELSE "not the fraction of the index"
        [] ZLe(ZAbs(ZSub(got, want)), tol) -> ""
        [] OTHER -> "not the scaled fraction of the index"
\* between the quantiles of the uniform number and its neighbours
NormalWhy ==
   LET b == B(1) IN
   IF \E j \in 1..4 : Lost(R(j)) \/ R(j) = "nan" THEN "no number"
   ELSE LET o == [j \in 1..4 |-> Ord(R(j), b)]
            lo == ZMin(o[2], ZMin(o[3], o[4])) hi == ZMax(o[2], ZMax(o[3], o[4]))
        IN IF ZLe(lo, ZAdd(o[1], 2)) /\ ZLe(ZSub(o[1], 2), hi) THEN "" ELSE "not the quantile of the uniform number"
SameWhy == IF Lost(R(3)) \/ Lost(R(4)) THEN "oracle: no Rust result"
           ELSE IF \E j \in 1..2 : R(j) # R(3) /\ R(j) # R(4) THEN "C and Rust differ" ELSE ""
LanesWhy == IF Lost(R(3)) THEN "oracle: no Rust result"
            ELSE IF R(1) # R(3) \/ R(2) # R(3) THEN "a lane differs from Rust" ELSE ""
ConstWhy == IF R(1) = ConstTruth(F(1), B(1)) THEN "" ELSE "wrong constant"

Verdict == CASE scn[1] = "value" -> Value(1)
             [] scn[1] = "odd" -> OddWhy
             [] scn[1] = "even" -> EvenWhy
             [] scn[1] = "quadrants" -> QuadrantsWhy
             [] scn[1] = "bounded" -> BoundedWhy
             [] scn[1] = "pair" -> PairWhy
             [] scn[1] = "round" -> RoundWhy
             [] scn[1] = "nextafter" -> IF R(1) = ZAdd(A(1)[1], 1) THEN "" ELSE "not the next float"
             [] scn[1] = "negate_on_odd" -> ParityWhy
             [] scn[1] = "approx" -> ApproxWhy
             [] scn[1] = "uniform" -> UniformWhy
             [] scn[1] = "normal" -> NormalWhy
             [] scn[1] = "constant" -> ConstWhy
             [] scn[1] = "lanes" -> LanesWhy
             [] OTHER -> SameWhy
\* The calls are made, then their results judged.
Load == /\ n = 0
        /\ scn' = TLCEval(Scen(Rec.id))
        /\ n' = 1
        /\ UNCHANGED i
Judge == /\ n = 1
         /\ LET v == TLCEval(Verdict) IN
            IF v = "" THEN ZCount(scn[1] \o " " \o F(1)) ELSE Bad(v) /\ FALSE
         /\ n' = 2
         /\ UNCHANGED <<i, scn>>
Next == Load \/ Judge
View == <<i, n>>
===============================================================================
