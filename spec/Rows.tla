---------------------------------- MODULE Rows -----------------------------------
(***************************************************************************)
(* The generated tests. A test holds rows of an argument, the value there  *)
(* rounded to the width and what the rounding left, and a limit. Its       *)
(* judging function fails a function that is further from some value than  *)
(* the limit, or that returns no number.                                   *)
(* A literal is a record [m, e]: m * 10^e.                                 *)
(***************************************************************************)
EXTENDS MathLib, FiniteSets
CONSTANTS Seed, Count, Plans

DecFixed(l, w) == IF l.e >= 0 THEN ZMul(ZMul(l.m, ZPow10(l.e)), One(w)) ELSE ZDivR(ZMul(l.m, One(w)), ZPow10(-l.e))
LitBits(l, b) == NearestDec(l.m, -l.e, b)
\* a literal that is exactly the float nearest to it
ExactLit(l, b) == LET v == ToFixed(LitBits(l, b), b, 1100) IN
                  IF l.e >= 0 THEN ZEq(DecFixed(l, 1100), v) ELSE ZEq(ZMul(l.m, One(1100)), ZMul(v, ZPow10(-l.e)))
\* an end of the interval: a decimal, perhaps times pi, over an integer
End(d, w) == LET v == DecFixed(d, w) IN ZDivR(IF d.pi THEN FMul(v, FPi(w), w) ELSE v, ZI(d.d))
Argument(r) == LET w == 300 lo == End(r.min, w) hi == End(r.max, w) IN
               NearestFixed(ZAdd(lo, ZDivR(ZMul(ZI(r.j), ZSub(hi, lo)), ZI(r.n))), w, r.b)

\* |err - (value - y)| up to the digits the generator works with
ErrTol(t, b, w) == ZDiv(ZMax(One(w), ZAbs(t)), ZPow10(IF b = 32 THEN 17 ELSE 37))
RowWhy(r) ==
   LET b == r.b
       w == 420
       x == LitBits(r.x, b)
       y == LitBits(r.y, b)
       a == <<x>> \o [j \in 1..Len(r.more) |-> LitBits(r.more[j], b)]
       Y == ToFixed(y, b, w)
       E == DecFixed(r.err, w)
       ulp == ZShl(1, w + FE(y, b))
       half == ZAdd(Half(ulp), ZShl(ulp, -6))
       truth == IF r.f = "nextafter" THEN <<"real", ToFixed(x, b, w)>> ELSE TLCEval(Truth(r.f, a, b, w))
   IN CASE ~ExactLit(r.x, b) \/ ~ExactLit(r.y, b) -> "no number of the width"
        [] x # Argument(r) /\ ~(IsZero(x, b) /\ IsZero(Argument(r), b)) -> "not the stated argument"
        [] truth[1] = "quantile" ->
              LET t == ZAdd(Y, E)
                  p == ToFixed(x, b, w)
                  tol == ErrTol(t, b, w)
              IN CASE ~(ZLe(FNorm(ZSub(Y, half), w), p) /\ ZLe(p, FNorm(ZAdd(Y, half), w))) -> "wrong value"
                   [] ~(ZLe(FNorm(ZSub(t, tol), w), p) /\ ZLe(p, FNorm(ZAdd(t, tol), w))) -> "wrong error"
                   [] OTHER -> ""
        [] truth[1] # "real" -> "no value"
        [] ZLt(half, ZAbs(ZSub(Y, truth[2]))) -> "wrong value"
        [] ZLt(ErrTol(truth[2], b, w), ZAbs(ZSub(E, ZSub(truth[2], Y)))) -> "wrong error"
        [] OTHER -> ""

\* the test as a whole: the function of the table, as many rows, the stated limit
Unit(b) == IF b = 32 THEN 23 ELSE 53
TestWhy(r) ==
   CASE r.rows # r.n -> "not the stated number of rows"
     [] r.call # r.want -> "another function is tested"
     [] LitBits(r.limit, 64) # Nearest(ZMul(r.bits.m, IF r.bits.e >= 0 THEN ZPow10(r.bits.e) ELSE "1"),
                                       ZMul(IF r.bits.e >= 0 THEN "1" ELSE ZPow10(-r.bits.e), ZPow2(Unit(r.b))), 64) -> "not the stated limit"
     [] OTHER -> ""

(***************************************************************************)
(* Verdicts. Numbers are integers of 1024ths; a result may also be NaN or  *)
(* infinite. Everything is exact at both widths.                           *)
(***************************************************************************)
H(k) == ZMix(ZMix(Seed, 7919), k)
\* rows <<y, err, result>> and a limit
Row(h, limit) ==
   LET y == Pick(h, 4001) - 2000
       e == Pick(Split(h, 1), 7) - 3
       off == CASE Pick(Split(h, 2), 8) = 0 -> limit
                [] Pick(Split(h, 2), 8) = 1 -> -limit
                [] Pick(Split(h, 2), 40) = 2 -> limit + 1
                [] Pick(Split(h, 2), 40) = 3 -> -limit - 1
                [] OTHER -> Pick(Split(h, 3), 2 * limit + 1) - limit
       odd == Pick(Split(h, 4), 40)
   IN <<ZI(y), ZI(e), CASE odd = 0 -> "nan" [] odd = 1 -> "inf" [] odd = 2 -> "-inf" [] OTHER -> ZI(y + e + off)>>
RECURSIVE RowsOf(_, _, _)
RowsOf(h, limit, n) == IF n = 0 THEN <<>> ELSE RowsOf(h, limit, n - 1) \o <<Row(Split(h, 10 + n), limit)>>
Verdict(k) ==
   LET h == H(k) limit == Pick(Split(h, 1), 60)
   IN [limit |-> limit, rows |-> RowsOf(h, limit, 1 + Pick(Split(h, 2), 6))]
Fails(v) == \E j \in 1..Len(v.rows) :
               LET r == v.rows[j] IN r[3] \in {"nan", "inf", "-inf"} \/ ZLt(ZI(v.limit), ZAbs(ZSub(ZSub(r[3], r[1]), r[2])))
\* what a test that passes writes for a plot: argument (the row's number), value, result and error of each row
Plotted(v) == [j \in 1..Len(v.rows) |-> LET r == v.rows[j] IN <<ZI(1024 * (j - 1)), r[1], r[3], ZAbs(ZSub(ZSub(r[3], r[1]), r[2]))>>]
PlotHead == <<"x", "yref", "ycalc", "eref">>
RECURSIVE RowText(_)
RowText(rows) == IF rows = <<>> THEN "" ELSE " " \o Head(rows)[1] \o " " \o Head(rows)[2] \o " " \o Head(rows)[3] \o RowText(SubSeq(rows, 2, Len(rows)))
VerdictText(k) == LET v == Verdict(k) IN ZI(v.limit) \o RowText(v.rows)
(***************************************************************************)
(* Histograms. The test of a random function draws a million numbers; it   *)
(* fails if the share of some of 32 buckets is off its density by more     *)
(* than 0.03, and passes if all are within 0.01. Densities are in          *)
(* ten-thousandths; the counts of the buckets follow from planned ones.    *)
(***************************************************************************)
Buckets == 32
Histograms == <<"runif", "rnorm">>
Length(name) == IF name = "runif" THEN 1 ELSE 4       \* of the interval
\* at the middle of bucket j: of [0, 1], or of [-2, 2] under the normal curve
Density(name, j) ==
   IF name = "runif" THEN 10000
   ELSE LET w == 80
            x == 2 * j - 1 - Buckets
        IN ZInt(ZDivR(ZMul(10000, FExp(ZDivR(ZMul(-(x * x), One(w)), 512), w)), FSqrt(ZMul(2, FPi(w)), w)))
\* what each bucket's density differs by
Deviation(h, j, bad) ==
   LET pair == Pick(Split(h, 20 + (j % 16)), 161) - 80
       small == IF j <= 16 THEN pair ELSE -pair      \* bucket j + 16 undoes bucket j
       much == 350 + Pick(Split(h, 60 + j), 130)
   IN CASE bad = {} -> small
        [] j \notin bad -> -18 * Cardinality(bad)
        [] Pick(Split(h, 61), 3) = 0 -> much
        [] OTHER -> -much
Bad(h) == CASE Pick(Split(h, 1), 3) = 0 -> {}
            [] Pick(Split(h, 1), 9) = 1 -> {1 + Pick(Split(h, 2), Buckets), 1 + Pick(Split(h, 3), Buckets)}
            [] Pick(Split(h, 1), 9) = 2 -> {PickSeq(Split(h, 2), <<1, Buckets>>)}
            [] OTHER -> {1 + Pick(Split(h, 2), Buckets)}
Planned(k) ==
   LET h == ZMix(H(k), 3)
       name == PickSeq(h, Histograms)
       bad == Bad(h)
   IN [name |-> name, bad |-> bad, dev |-> [j \in 1..Buckets |-> Deviation(h, j, bad)]]
Count1(name, j, dev) == ((Density(name, j) + dev) * Length(name) * 25) \div 8
HistogramFails(p) == p.bad # {}
RECURSIVE CountText(_, _)
CountText(p, j) == IF j > Buckets THEN "" ELSE " " \o ZI(Count1(p.name, j, p.dev[j])) \o CountText(p, j + 1)
HistogramText(k) == LET p == Planned(k) IN p.name \o CountText(p, 1)
===============================================================================
