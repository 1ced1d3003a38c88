--------------------------------- MODULE Interp --------------------------------
(***************************************************************************)
(* Interpolation (I01) and approximation by polynomials (I02).             *)
(*                                                                         *)
(* The polynomial of degree below n through n points is unique. Newton is  *)
(* a machine that computes it in fixed point, one point at a time, along   *)
(* with a bound of what decimal arithmetic with d places may lose on the   *)
(* way (the conditioning of the points). An observed polynomial is         *)
(* accepted when each of its coefficients is within that bound.            *)
(***************************************************************************)
EXTENDS Eval
CONSTANTS Seed, Mode, Count, Chunk

Zeros(n) == [j \in 1..n |-> "0"]
RECURSIVE Columns(_, _, _, _, _, _)
\* one column of divided differences after another; ys holds <<value, bound>>
Columns(xs, ys, c, u, w, n) ==
   IF c = n THEN ys
   ELSE LET next == TLCEval([m \in 1..n |->
              IF m <= c THEN ys[m]
              ELSE LET dx == ZSub(xs[m], xs[m - c]) IN
                   <<FDiv(ZSub(ys[m][1], ys[m - 1][1]), dx, w),
                     ZAdd(u, ZAbs(FDiv(ZAdd(ys[m][2], ys[m - 1][2]), ZAbs(dx), w)))>>])
        IN Columns(xs, next, c + 1, u, w, n)
RECURSIVE Basis(_, _, _, _, _, _, _)
\* acc and nw: coefficients with bounds
Basis(xs, dd, nw, acc, j, u, w) ==
   LET n == Len(xs) IN
   IF j > n THEN acc
   ELSE LET acc2 == TLCEval([m \in 1..n |->
              <<ZAdd(acc[m][1], FMul(nw[m][1], dd[j][1], w)),
                ZAdd(ZAdd(acc[m][2], u), ZAdd(FMul(ZAbs(nw[m][1]), dd[j][2], w), FMul(nw[m][2], ZAdd(ZAbs(dd[j][1]), dd[j][2]), w)))>>])
            low(m) == IF m = 1 THEN <<"0", "0">> ELSE nw[m - 1]
            nw2 == TLCEval([m \in 1..n |->
              <<ZSub(low(m)[1], FMul(nw[m][1], xs[j], w)),
                ZAdd(ZAdd(low(m)[2], u), FMul(nw[m][2], ZAbs(xs[j]), w))>>])
        IN Basis(xs, dd, nw2, acc2, j + 1, u, w)
\* coefficients of the polynomial through the points, each with its bound; e0 bounds the error of the values
Newton(xs, ys, e0, u, w) ==
   LET n == Len(xs)
       dd == Columns(xs, TLCEval([m \in 1..n |-> <<ys[m], e0>>]), 1, u, w, n)
       start == [m \in 1..n |-> IF m = 1 THEN <<One(w), "0">> ELSE <<"0", "0">>]
   IN Basis(xs, dd, start, [m \in 1..n |-> <<"0", "0">>], 1, u, w)

\* the reference machine against the definition: it passes through the points
RECURSIVE Horner(_, _, _, _)
Horner(cs, x, w, j) == IF j > Len(cs) THEN "0" ELSE ZAdd(cs[j], FMul(x, Horner(cs, x, w, j + 1), w))

(***************************************************************************)
(* Polynomials as sequences of decimals; what an expression built from a   *)
(* variable, numbers, sums, products and multiply-adds denotes.            *)
(***************************************************************************)
Coef(a, j) == IF j <= Len(a) THEN a[j] ELSE Zero
PAdd(a, b) == [j \in 1..MaxI(Len(a), Len(b)) |-> DAdd(Coef(a, j), Coef(b, j))]
PNeg(a) == [j \in 1..Len(a) |-> DNeg(a[j])]
RECURSIVE PSum(_, _, _, _)
PSum(a, b, j, k) == IF k > j THEN Zero ELSE DAdd(DMul(Coef(a, k), Coef(b, j + 1 - k)), PSum(a, b, j, k + 1))
PMul(a, b) == TLCEval([j \in 1..(Len(a) + Len(b) - 1) |-> PSum(a, b, j, 1)])
RECURSIVE PolyOf(_, _)
PolyOf(t, var) ==      \* <<>> when it is not a polynomial
   CASE t[1] = "n" -> IF LitValue(t[2])[1] = "n" THEN <<LitValue(t[2])>> ELSE <<>>
     [] t[1] = "v" -> IF t[2] = var THEN <<Zero, OneD>> ELSE <<>>
     [] t[1] \in {"p", "g"} -> PolyOf(t[2], var)
     [] t[1] = "u" /\ t[2] = "-" -> PNeg(PolyOf(t[3], var))
     [] t[1] = "o" /\ t[2] \in {"+", "-", "*"} ->
          LET a == PolyOf(t[3], var) b == PolyOf(t[4], var) IN
          IF a = <<>> \/ b = <<>> THEN <<>>
          ELSE IF t[2] = "+" THEN PAdd(a, b) ELSE IF t[2] = "-" THEN PAdd(a, PNeg(b)) ELSE PMul(a, b)
     [] t[1] = "m" /\ t[2] = "mul_add" /\ Len(t[4]) = 2 ->
          LET a == PolyOf(t[3], var) b == PolyOf(t[4][1], var) c == PolyOf(t[4][2], var) IN
          IF a = <<>> \/ b = <<>> \/ c = <<>> THEN <<>> ELSE PAdd(PMul(a, b), c)
     [] OTHER -> <<>>
RECURSIVE MulAddsOnly(_)
\* a chain of multiply-adds: nothing is added any other way
MulAddsOnly(t) == CASE t[1] \in {"n", "v"} -> TRUE
                    [] t[1] \in {"p", "g"} -> MulAddsOnly(t[2])
                    [] t[1] = "u" -> t[3][1] = "n"
                    [] t[1] = "o" -> t[2] = "*" /\ MulAddsOnly(t[3]) /\ MulAddsOnly(t[4])
                    [] t[1] = "m" -> t[2] = "mul_add" /\ MulAddsOnly(t[3]) /\ \A j \in 1..Len(t[4]) : MulAddsOnly(t[4][j])
                    [] OTHER -> FALSE

\* The value of an expression in fixed point, for the functions that are approximated here.
RECURSIVE RVal(_, _, _, _)
RVal(t, var, x, w) ==
   CASE t[1] = "n" -> Fx(LitValue(t[2]), w)
     [] t[1] = "v" -> IF t[2] = var THEN x ELSE FPi(w)
     [] t[1] \in {"p", "g"} -> RVal(t[2], var, x, w)
     [] t[1] = "u" -> ZNeg(RVal(t[3], var, x, w))
     [] t[1] = "o" -> LET a == RVal(t[3], var, x, w) b == RVal(t[4], var, x, w) IN
          CASE t[2] = "+" -> ZAdd(a, b)
            [] t[2] = "-" -> ZSub(a, b)
            [] t[2] = "*" -> FMul(a, b, w)
            [] OTHER -> FDiv(a, b, w)
     [] OTHER -> LET a == RVal(t[3], var, x, w) IN
          CASE t[2] = "sin" -> FSin(a, w)
            [] t[2] = "cos" -> FCos(a, w)
            [] t[2] = "exp" -> FExp(a, w)
            [] t[2] = "exp2" -> FExp(FMul(a, FLn2(w), w), w)
            [] t[2] = "ln" -> FLn(a, w)
            [] t[2] = "sqrt" -> FSqrt(a, w)
            [] t[2] = "recip" -> FDiv(One(w), a, w)
            [] t[2] = "atan" -> FAtan(a, w)
            [] t[2] = "erf" -> FErf(a, w)
            [] OTHER -> FMul(a, a, w)      \* abs and others are not used

(***************************************************************************)
(* I01: <<digits, xs, ys, polynomial>>; the polynomial is <<>> unless the  *)
(* values are those of a polynomial of smaller degree.                     *)
(***************************************************************************)
H(k) == ZMix(ZMix(ZMix(Seed, ZHash(Mode, 1000003)), 66), k)
PlacesText(a) == ZShow(a[2], a[3])
SmallDec(h, lim, p) == N(ZSub(ZMod(ZRandBits(Split(h, 1), 80), ZMul(2 * lim + 1, ZPow10(p))), ZMul(lim, ZPow10(p))), p)
RECURSIVE Steps(_, _, _, _)
\* distinct abscissae: every gap at least a sixteenth
Steps(h, n, at, p) == IF n = 0 THEN <<>>
   ELSE LET gap == ZAdd(ZDiv(ZPow10(p), 16), ZMod(ZRandBits(Split(h, n), 60), ZMul(PickSeq(Split(h, 99), <<1, 2, 1>>), ZPow10(p))))
            x == ZAdd(at, gap)
        IN <<N(x, p)>> \o Steps(h, n - 1, x, p)
RECURSIVE Shuffle(_, _)
Shuffle(h, s) == IF Len(s) <= 1 THEN s
                 ELSE LET k == Pick(Split(h, Len(s)), Len(s)) + 1
                          rest == TLCEval([j \in 1..Len(s) - 1 |-> IF j < k THEN s[j] ELSE s[j + 1]])
                      IN <<s[k]>> \o Shuffle(h, rest)
DigitsList == <<20, 40, 30, 60, 15, 10, 80, 130>>
PEval(cs, x) == LET RECURSIVE F(_)
                    F(j) == IF j > Len(cs) THEN Zero ELSE DAdd(cs[j], DMul(x, F(j + 1)))
                IN F(1)
Points(k) ==
   LET h == H(k)
       many == Pick(Split(h, 12), 100) = 0     \* so many points that only many digits tell polynomials apart
       d == IF many THEN PickSeq(Split(h, 1), <<80, 130, 90>>) ELSE PickSeq(Split(h, 1), DigitsList)
       n == IF many THEN 26 + Pick(Split(h, 2), 30) ELSE IF Pick(Split(h, 11), 10) = 0 THEN 10 + Pick(Split(h, 2), 15) ELSE 1 + Pick(Split(h, 2), 9)
       p == Pick(Split(h, 3), 5)
       q == IF p = 0 THEN 0 ELSE p
       grid == [j \in 1..n |-> IntD(j - 1 - Pick(Split(h, 5), n))]
       xs == TLCEval(IF q = 0 THEN Shuffle(Split(h, 4), grid)
             ELSE Shuffle(Split(h, 4), Steps(Split(h, 5), n, ZNeg(ZMul(Pick(Split(h, 6), 4), ZPow10(q + 2))), q + 2)))
       deg == IF Pick(h, 3) = 0 THEN 0 ELSE Pick(Split(h, 7), n)        \* number of coefficients less one
       cs == TLCEval([j \in 1..deg + 1 |-> SmallDec(Split(h, 20 + j), 5, Pick(Split(h, 8), 4))])
   IN IF Pick(h, 2) = 0 THEN <<d, xs, TLCEval([j \in 1..n |-> PEval(cs, xs[j])]), cs>>
      ELSE <<d, xs, [j \in 1..n |-> SmallDec(Split(h, 40 + j), 9, Pick(Split(h, 9), 12))], <<>> >>
RECURSIVE ListText(_, _)
ListText(s, j) == IF j > Len(s) THEN "" ELSE (IF j > 1 THEN " " ELSE "") \o PlacesText(s[j]) \o ListText(s, j + 1)

Dec(text) == LET z == ZDec(text) IN N(z[1], z[2])
WhyPoints(s, rec) ==
   LET d == s[1] n == Len(s[2])
       w == Width(d) + 400
       u == Units(1, d, w)
       xs == TLCEval([j \in 1..n |-> Fx(s[2][j], w)])
       ref == Newton(xs, TLCEval([j \in 1..n |-> Fx(s[3][j], w)]), "0", u, w)
       near(j, v) == ZLe(ZAbs(ZSub(v, IF j <= n THEN ref[j][1] ELSE "0")), ZAdd(ZMul(4, IF j <= n THEN ref[j][2] ELSE "0"), u))
       got == [j \in 1..Len(rec.terms) |-> Dec(rec.terms[j])]
   IN CASE rec.st # "ok" -> "no result: " \o rec.st
        [] Len(rec.terms) > n -> "too many coefficients"
        [] \E j \in 1..n : ~near(j, Fx(Coef(got, j), w)) -> "does not pass through the points"
        [] s[4] # <<>> /\ \E j \in 1..n : ~ZLe(ZAbs(ZSub(Fx(Coef(got, j), w), Fx(Coef(s[4], j), w))), ZAdd(ZMul(4, ref[j][2]), u)) ->
              "another polynomial of smaller degree"
        [] \E j \in 1..n : DSub(Dec(rec.at[j]), PEval(got, s[2][j]))[2] # "0" -> "its value at a point is not that of its coefficients"
        [] OTHER -> ""

(***************************************************************************)
(* I02: <<term, terms, xmin, xmax, variable, parity, digits, wanted>>.     *)
(***************************************************************************)
Bin(op, a, b) == <<"o", op, a, b>>
Met(name, x) == <<"m", name, x, <<>> >>
Lit(a) == IF DSgn(a) < 0 THEN <<"u", "-", Num(PlacesText(DNeg(a)))>> ELSE Num(PlacesText(a))
RECURSIVE PolyTerm(_, _, _)
PolyTerm(cs, x, j) == IF j = Len(cs) THEN Lit(cs[j]) ELSE Bin("+", Lit(cs[j]), Bin("*", x, <<"p", PolyTerm(cs, x, j + 1)>>))
\* functions defined on all of [-2, 2]; even and odd ones
OddFn(h, x) == PickSeq(h, <<Met("sin", x), Met("atan", x), Met("erf", x), Bin("*", x, Met("cos", x)), Bin("*", x, Bin("*", x, x)),
                            Bin("/", x, <<"p", Bin("+", Num("3"), Bin("*", x, x))>>), Met("sin", Bin("*", x, Num("2"))), x>>)
EvenFn(h, x) == PickSeq(h, <<Met("cos", x), Met("exp", <<"p", <<"u", "-", Bin("*", x, x)>> >>), Met("ln", <<"p", Bin("+", Bin("*", x, x), Num("2"))>>),
                             Bin("*", x, Met("sin", x)), Met("recip", <<"p", Bin("+", Num("2.5"), Bin("*", x, x))>>), Bin("*", x, x), Num("1.5")>>)
AnyFn(h, x) == PickSeq(h, <<Met("exp", x), Met("exp2", x), Met("ln", <<"p", Bin("+", x, Num("3.5"))>>), Met("sqrt", <<"p", Bin("+", x, Num("4"))>>),
                            Met("recip", <<"p", Bin("-", x, Num("3"))>>), Bin("-", Met("sin", x), Met("cos", x)), Bin("*", Met("exp", x), Met("sin", x)),
                            Bin("+", <<"v", "PI">>, Met("atan", x)), OddFn(Split(h, 1), x), EvenFn(Split(h, 1), x)>>)
BadFn(h, x) == PickSeq(h, <<Bin("+", x, <<"v", "unknown">>), Met("ln", <<"p", Bin("-", Bin("-", Num("0"), Bin("*", x, x)), Num("1"))>>), Met("foo", x),
                            Met("sqrt", <<"p", Bin("-", Bin("*", x, Num("0")), Num("1"))>>), Bin("%", x, Num("2")), Bin("/", x, Bin("-", Num("1"), Num("1"))),
                            Bin("<", x, Num("1")), Met("asin", <<"p", Bin("+", Num("2"), Bin("*", x, x))>>)>>)
Vars == <<"x", "t", "y", "a::x">>
Task(k) ==
   LET h == H(k)
       var == PickSeq(Split(h, 1), Vars)
       x == <<"v", var>>
       parity == PickSeq(Split(h, 2), <<"odd", "even", "none", "none">>)
       big == Pick(Split(h, 14), 12) = 0     \* many terms: wide intervals, or rounding hides everything
       huge == big /\ Pick(Split(h, 15), 5) = 0
       d == IF huge THEN PickSeq(Split(h, 3), <<60, 80>>) ELSE IF big THEN PickSeq(Split(h, 3), <<40, 60>>) ELSE PickSeq(Split(h, 3), <<20, 40, 20, 30, 60>>)
       fits == Pick(Split(h, 4), 10) # 0
       n0 == IF huge THEN 23 + Pick(Split(h, 5), 24) ELSE IF big THEN 13 + Pick(Split(h, 5), 10) ELSE 2 + Pick(Split(h, 5), 11)
       n == IF Pick(Split(h, 4), 30) = 7 THEN Pick(Split(h, 12), 2)
            ELSE CASE parity = "odd" -> IF fits = (n0 % 2 = 0) THEN n0 ELSE n0 + 1
                   [] parity = "even" -> IF fits = (n0 % 2 = 1) THEN n0 ELSE n0 + 1
                   [] OTHER -> n0
       half == IF big THEN 16 - Pick(Split(h, 6), 5) ELSE 1 + Pick(Split(h, 6), 16)
       mid == IF parity # "none" /\ Pick(Split(h, 7), 4) # 0 THEN 0 ELSE Pick(Split(h, 7), 17) - 8
       lo == IF mid - half < -16 THEN -16 ELSE mid - half
       hi == IF mid = 0 THEN -lo ELSE IF mid + half > 16 THEN 16 ELSE mid + half
       sym == lo = -hi
       turn == Pick(Split(h, 13), 12)        \* sometimes the ends are exchanged, or the same
       \* coefficients of the polynomial, only of the parity asked for; fewer than n
       deg == IF n = 0 THEN 0 ELSE Pick(Split(h, 8), n)
       cs == [j \in 1..deg + 1 |-> IF (parity = "odd" /\ j % 2 = 1) \/ (parity = "even" /\ j % 2 = 0) THEN Zero
                                   ELSE SmallDec(Split(h, 20 + j), 3, Pick(Split(h, 9), 4))]
       f == CASE Pick(Split(h, 10), 12) = 0 -> BadFn(Split(h, 11), x)
              [] Pick(Split(h, 10), 12) < 5 -> PolyTerm(cs, x, 1)
              [] parity = "odd" /\ sym -> OddFn(Split(h, 11), x)
              [] parity = "even" /\ sym -> EvenFn(Split(h, 11), x)
              [] OTHER -> AnyFn(Split(h, 11), x)
       kind == CASE Pick(Split(h, 10), 12) = 0 -> "bad"
                 [] Pick(Split(h, 10), 12) < 5 -> "poly"
                 [] parity # "none" /\ ~sym -> "shape"
                 [] OTHER -> "fn"
   IN <<f, n, IntD(IF turn = 0 THEN hi ELSE lo), IntD(IF turn \in {0, 1} THEN lo ELSE hi), var, parity, d, IF turn = 1 THEN "empty" ELSE IF turn = 0 /\ kind = "shape" THEN "shape" ELSE kind, cs>>
Eighth(a) == N(ZMul(a[2], 125), 3)
NodesFixed(n, lo, hi, w) ==
   LET mid == Half(ZAdd(lo, hi)) rad == Half(ZSub(hi, lo)) IN
   TLCEval([j \in 1..n |-> ZSub(mid, FMul(rad, FCos(ZDiv(ZMul(j - 1, FPi(w)), n - 1), w), w))])
Misfit(n, parity) == n < 2 \/ (parity = "odd" /\ n % 2 # 0) \/ (parity = "even" /\ n % 2 = 0)
RECURSIVE MaxZ(_, _)
MaxZ(s, j) == IF j > Len(s) THEN "0" ELSE ZMax(ZAbs(s[j]), MaxZ(s, j + 1))
WhyTask(s, src, rec) ==
   LET n == s[2] d == s[7] w == Width(d) + 300
       lo == Fx(Eighth(s[3]), w) hi == Fx(Eighth(s[4]), w)
       got == TLCEval(PolyOf(rec.ast, s[5]))
       again == TLCEval(PolyOf(rec.re, s[5]))
       xs == NodesFixed(n, lo, hi, w)
       ys == TLCEval([j \in 1..n |-> RVal(s[1], s[5], xs[j], w)])
       u == Units(1, d, w)
       e0 == FMul(ZAdd(One(w), MaxZ(ys, 1)), ZMul(200, u), w)
       ref == TLCEval(Newton(xs, ys, e0, ZMul(4, u), w))
       off(j, v) == ~ZLe(ZAbs(ZSub(v, IF j <= n THEN ref[j][1] ELSE "0")), ZAdd(ZMul(4, IF j <= n THEN ref[j][2] ELSE "0"), u))
   IN CASE Bare(src) # Bare(s[1]) -> "another expression"
        [] Misfit(n, s[6]) -> IF rec.st = "err" \/ (rec.st = "ok" /\ n = 1) THEN "" ELSE "a term count that does not fit was accepted"
        [] s[8] = "empty" -> IF rec.st = "err" THEN "" ELSE "an interval of one point was accepted"
        [] s[8] = "bad" -> IF rec.st = "err" THEN "" ELSE "an expression without a value was accepted"
        [] rec.st # "ok" -> "no result: " \o rec.st
        [] got = <<>> \/ ~MulAddsOnly(rec.ast) -> "not a chain of multiply-adds in the variable"
        [] Len(got) > n -> "too many terms"
        [] got # again -> "the printed form is another polynomial"
        [] \E j \in 1..Len(got) : /\ DSgn(got[j]) # 0
                                  /\ \/ s[6] = "odd" /\ j % 2 = 1
                                     \/ s[6] = "even" /\ j % 2 = 0 -> "a power of the other parity"
        [] s[8] = "shape" -> ""
        [] \E j \in 1..n : off(j, Fx(Coef(got, j), w)) -> "not the interpolating polynomial"
        [] s[8] = "poly" /\ \E j \in 1..n : ~ZLe(ZAbs(ZSub(Fx(Coef(got, j), w), Fx(Coef(s[9], j), w))), ZAdd(ZMul(4, ref[j][2]), u)) ->
              "a polynomial of lower degree is not reproduced"
        [] OTHER -> ""

Line(k) == IF Mode = "I01" THEN LET s == Points(k) IN ZI(k) \o "\tpoly\t" \o ZI(s[1]) \o "\t" \o ListText(s[2], 1) \o "\t" \o ListText(s[3], 1)
           ELSE LET s == Task(k) IN ZI(k) \o "\tapprox\t" \o Text(s[1]) \o "\t" \o ZI(s[2]) \o "\t" \o PlacesText(Eighth(s[3])) \o "\t"
                                    \o PlacesText(Eighth(s[4])) \o "\t" \o s[5] \o "\t" \o s[6] \o "\t" \o ZI(s[7])
Mod(a, b) == a % b
===============================================================================
