-------------------------------- MODULE EvalGen --------------------------------
(***************************************************************************)
(* The constant expressions and roundings that are replayed.               *)
(***************************************************************************)
EXTENDS Eval
CONSTANTS Seed, Mode, Count, Chunk, ScenFile
VARIABLE i

\* A literal of up to b bits with up to p places.
RandLit(h, b, p) == ZShow(ZRandBits(Split(h, 1), 1 + Pick(Split(h, 2), b)), Pick(Split(h, 3), p + 1))
Written == <<"0", "1", "2", "3", "7", "10", "0.5", "1.25", "1e2", "1.5e-3", "1_000", "7u32", "2.5f32", "3f64", "0x1F", "0b101", "0o17",
             "12345678901234567890.5", "0.000001", "1.10", "100", "9", "1E3", "2.50e+2", "4.0", "0.0", "1e0", "3.000", "5_0.2_5", "1_0e1",
             "0.1f64", "99999999999999999999999999999999", "0.33333333333333333333333333333333333333333", "2e-7", "1u8", "6i64">>
Lit(h) == LET c == Pick(h, 100) IN
          CASE c < 45 -> Num(PickSeq(Split(h, 1), Written))
            [] c < 52 -> Num(RandLit(Split(h, 1), 400, 120))
            [] OTHER -> Num(RandLit(Split(h, 1), 60, 20))
Neg(t) == <<"u", "-", t>>
Sig(h, t) == IF Pick(h, 3) = 0 THEN Neg(t) ELSE t
Bin(op, a, b) == <<"o", op, a, b>>
Met(name, x, args) == <<"m", name, x, args>>

RECURSIVE Arith(_, _)
Arith(h, d) ==
   LET c == Pick(h, 100) h1 == Split(h, 1) h2 == Split(h, 2) IN
   IF d = 0 THEN Lit(h1)
   ELSE CASE c < 10 -> Lit(h1)
          [] c < 18 -> Neg(Arith(h1, d - 1))
          [] c < 26 -> <<"p", Arith(h1, d - 1)>>
          [] c < 88 -> Bin(PickSeq(Split(h, 3), <<"+", "-", "*", "/", "-", "*">>), Arith(h1, d - 1), Arith(h2, d - 1))
          [] OTHER -> Met(PickSeq(Split(h, 3), <<"abs", "signum", "round">>), Arith(h1, d - 1), <<>>)
Compare(h, d) ==
   LET a == Arith(Split(h, 1), d - 1)
       \* equal values in other writing, and values closer than any digits asked for, are interesting
       b == CASE Pick(Split(h, 4), 4) = 0 -> Bin("+", a, Num(PickSeq(Split(h, 5), <<"0", "0.0", "0e5">>)))
              [] Pick(Split(h, 4), 4) = 1 -> Bin(PickSeq(Split(h, 7), <<"-", "+">>), a, Num(PickSeq(Split(h, 5), <<"1e-100", "0.00", "1e-5", "1e-85">>)))
              [] Pick(Split(h, 4), 4) = 2 -> Bin(PickSeq(Split(h, 7), <<"-", "+">>), a, Num(ZShow("1", 1 + Pick(Split(h, 5), 90))))
              [] OTHER -> Arith(Split(h, 2), d - 1)
       op == PickSeq(Split(h, 3), <<"<", ">", "<=", ">=", "==", "!=">>)
   IN IF Pick(Split(h, 6), 2) = 0 THEN Bin(op, a, b) ELSE Bin(op, <<"p", b>>, a)

(***************************************************************************)
(* Arguments on both sides of the splits and over the ranges of functions. *)
(***************************************************************************)
Near(h, c) == LET t == ZShow("1", 1 + Pick(Split(h, 8), 25)) IN
              CASE Pick(h, 3) = 0 -> Num(c)
                [] Pick(h, 3) = 1 -> Bin("+", Num(c), Num(t))
                [] OTHER -> Bin("-", Num(c), Num(t))
\* a number in (-c, c) or (0, c) with up to 30 places
Frac(h) == Num(ZShow(ZMod(ZRandBits(h, 110), ZPow10(1 + Pick(Split(h, 9), 30))), 1 + Pick(Split(h, 9), 30)))
Within(h, c) == Bin("*", Frac(Split(h, 1)), Num(ZI(c)))
Unit(h) == CASE Pick(h, 3) = 0 -> Sig(Split(h, 1), <<"p", Near(Split(h, 2), "0.5")>>)
             [] Pick(h, 9) = 1 -> Sig(Split(h, 1), Num("1"))
             [] Pick(h, 9) = 2 -> Sig(Split(h, 1), Bin("-", Num("1"), Num(ZShow("1", 1 + Pick(Split(h, 5), 30)))))
             [] Pick(h, 9) = 4 -> Sig(Split(h, 1), Num("0"))
             [] OTHER -> Sig(Split(h, 1), Frac(Split(h, 2)))
Splits == <<"0", "0.5", "1", "1.6487212707001281468", "0.6065306597126334236", "2", "2.7182818284590452", "4", "10", "0.25">>
Positive(h) == CASE Pick(h, 3) = 0 -> LET s == PickSeq(Split(h, 1), Tail(Splits)) IN Near(Split(h, 2), s)
                 [] Pick(h, 9) = 1 -> Num(RandLit(Split(h, 1), 90, 0))
                 [] Pick(h, 9) = 2 -> Num("0." \o RandLit(Split(h, 3), 60, 0))
                 [] Pick(h, 9) = 4 -> Bin("+", Num(ZShow("1", 20)), Frac(Split(h, 2)))
                 [] OTHER -> Bin("+", Num("0.0001"), Within(Split(h, 1), 1 + Pick(Split(h, 2), 50)))
Real(h, lim) == CASE Pick(h, 4) = 0 -> Sig(Split(h, 1), <<"p", Near(Split(h, 2), PickSeq(Split(h, 3), Splits))>>)
                  [] Pick(h, 8) = 1 -> Sig(Split(h, 1), Bin("/", <<"v", "PI">>, Num(ZI(1 + Pick(Split(h, 2), 8)))))
                  [] OTHER -> Sig(Split(h, 1), <<"p", Within(Split(h, 2), 1 + Pick(Split(h, 3), lim))>>)
DigitsList == <<20, 40, 10, 6, 30, 60, 80, 3, 15, 50, 90>>
Digits(h) == PickSeq(h, DigitsList)
\* ten thousand times the number whose exponential is j (natural) powers above the last of d digits
Last(h, d) == ZI(MaxI(23026 * d - 10000 * Pick(Split(h, 5), 25), 2500))
Tail0(h, d) == Num(ZShow(ZAdd(Last(h, d), ZMod(ZRandBits(Split(h, 6), 20), "10000")), 4))
\* and the number whose square it is, times k
TailRoot(h, d, k) == Num(ZShow(ZSqrt(ZMul(Last(h, d), ZI(100 * k))), 3))
Elementary == <<"exp", "exp2", "powf", "powi", "sqrt", "ln", "log", "log2", "log10", "recip", "sin", "cos", "tan", "asin", "acos", "atan", "PI">>
Elem(h, name, d) ==
   LET lim == PickSeq(Split(h, 71), <<1, 2, 4, 5, 8, 20, 60, 250>>) IN
   CASE name \in {"sin", "cos", "tan"} /\ Pick(h, 10) = 0 -> Met(name, Sig(Split(h, 1), Num(RandLit(Split(h, 2), 60, 45))), <<>>)
     [] name \in {"sin", "cos", "tan"} /\ Pick(h, 10) = 1 /\ d < 60 -> Met(name, Sig(Split(h, 1), Num(RandLit(Split(h, 2), 3 * (88 - d), 4))), <<>>)
     [] name = "exp" /\ Pick(h, 4) = 0 -> Met(name, <<"p", Neg(Tail0(h, d))>>, <<>>)
     [] name = "exp2" /\ Pick(h, 8) = 0 -> Met(name, <<"p", Neg(Bin("/", Tail0(h, d), Num("0.6931")))>>, <<>>)
     [] name \in {"exp", "exp2", "sin", "cos", "tan"} -> Met(name, Real(h, lim), <<>>)
     [] name \in {"ln", "log2", "log10"} -> Met(name, Positive(h), <<>>)
     [] name = "sqrt" -> Met(name, IF Pick(h, 20) = 0 THEN Num("0")
                               \* the root has more digits before the point; or is exact
                               ELSE IF Pick(Split(h, 3), 4) = 0 THEN Num(RandLit(Split(h, 1), 400, 60))
                               ELSE IF Pick(Split(h, 3), 12) = 1 THEN LET r == ZRandBits(Split(h, 1), 100) IN Num(ZShow(ZMul(r, r), 2 * Pick(Split(h, 4), 20)))
                               ELSE Positive(Split(h, 1)), <<>>)
     [] name = "recip" -> Met(name, Sig(Split(h, 2), IF Pick(Split(h, 3), 4) = 0 THEN Num(ZShow(ZAdd(ZRandBits(Split(h, 1), 60), 1), 20 + Pick(Split(h, 4), 60)))
                                                     ELSE Positive(Split(h, 1))), <<>>)
     [] name = "log" -> Met(name, Positive(Split(h, 1)), <<IF Pick(h, 2) = 0 THEN Num(ZI(2 + Pick(Split(h, 3), 9))) ELSE Positive(Split(h, 2))>>)
     [] name = "powi" -> Met(name, Positive(Split(h, 1)), <<Sig(Split(h, 2), Num(ZI(Pick(Split(h, 3), 6))))>>)
     [] name = "powf" -> Met(name, Positive(Split(h, 1)), <<Real(Split(h, 2), PickSeq(Split(h, 71), <<1, 4, 30>>))>>)
     [] name \in {"asin", "acos"} -> Met(name, Unit(h), <<>>)
     [] name = "atan" -> Met(name, IF Pick(h, 2) = 0 THEN Unit(Split(h, 1)) ELSE Sig(Split(h, 2), Positive(Split(h, 1))), <<>>)
     [] OTHER -> <<"v", "PI">>

RandOne(h) == Num(PickSeq(h, <<"0.5", "1", "2", "3.25", "10", "0.125", "7", "100">>))
Mean(h) == IF Pick(h, 2) = 0 THEN Num("0") ELSE Sig(Split(h, 1), RandOne(Split(h, 2)))
Normals == <<"erf", "erfc", "dnorm", "pnorm", "qnorm", "inverse", "erf", "pnorm">>
Prob(h) == IF Pick(h, 4) = 0 THEN Num(PickSeq(Split(h, 1), <<"0.5", "0.001", "0.999", "0.25", "0.02425", "0.97575", "0.000001", "0.999999", "1e-5">>))
           ELSE LET k == ZAdd(ZMod(ZRandBits(Split(h, 2), 60), "9999970"), "15") IN Num(ZShow(k, 7))
NormE(h, name, d) ==
   LET m == Mean(Split(h, 1)) s == RandOne(Split(h, 2)) h3 == Split(h, 3) IN
   CASE name \in {"erf", "erfc"} /\ Pick(h, 4) = 1 -> Met(name, Sig(h3, TailRoot(h, d, 1)), <<>>)
     [] name \in {"dnorm", "pnorm"} /\ Pick(h, 4) = 1 -> Met(name, <<"p", Bin(PickSeq(Split(h, 9), <<"+", "-">>), m, Bin("*", s, TailRoot(h, d, 2)))>>, <<m, s>>)
     [] name \in {"erf", "erfc"} -> Met(name, IF Pick(h, 3) = 0 THEN Unit(h3) ELSE Real(h3, PickSeq(Split(h, 71), <<1, 2, 5, 9, 14>>)), <<>>)
     [] name \in {"dnorm", "pnorm"} ->
           Met(name, <<"p", Bin("+", m, Bin("*", s, Real(h3, PickSeq(Split(h, 71), <<1, 2, 4, 9, 16>>))))>>, <<m, s>>)
     [] name = "qnorm" -> Met(name, <<"p", Prob(h3)>>, <<m, s>>)
     [] OTHER -> Met("qnorm", Met("pnorm", <<"p", Bin("+", m, Bin("*", s, Within(h3, 3)))>>, <<m, s>>), <<m, s>>)

(***************************************************************************)
(* Anything at all. Operands that would be too large to compute with are   *)
(* kept out by estimating the value of every node.                         *)
(***************************************************************************)
Names0 == <<"round", "abs", "signum", "recip", "sqrt", "exp", "exp2", "ln", "log2", "log10", "sin", "cos", "tan",
            "asin", "acos", "atan", "erf", "erfc", "floor", "sinh", "cbrt", "foo">>
Names1 == <<"powi", "powf", "log", "round_ieee", "sin", "exp", "max", "dnorm">>
Names2 == <<"dnorm", "pnorm", "qnorm", "powf", "mul_add", "sqrt">>
SmallLits == <<"0", "1", "2", "3", "0.5", "1.5", "0.25", "1e-3", "0.999", "1.0001", "2.5f32", "32", "64", "0x3", "0.1", "10">>
Leaf(h) == LET c == Pick(h, 100) IN
   CASE c < 88 -> Num(PickSeq(Split(h, 1), SmallLits))
     [] c < 93 -> <<"v", "PI">>
     [] c < 96 -> <<"v", PickSeq(Split(h, 1), <<"x", "E", "std::f64::consts::PI", "pi">>)>>
     [] c < 98 -> <<"b", Pick(Split(h, 1), 2) = 0>>
     [] c < 99 -> <<"s", "\"abc\"">>
     [] OTHER -> <<"z", PickSeq(Split(h, 1), <<"{ 1 }", "if true { 1 } else { 2 }", "[1 , 2]">>)>>
RECURSIVE AnyTerm(_, _)
AnyTerm(h, d) ==
   LET c == Pick(h, 100) h1 == Split(h, 1) h2 == Split(h, 2) h3 == Split(h, 3) h4 == Split(h, 4) IN
   IF d = 0 THEN Leaf(h1)
   ELSE CASE c < 10 -> Leaf(h1)
          [] c < 18 -> Neg(AnyTerm(h1, d - 1))
          [] c < 23 -> <<"p", AnyTerm(h1, d - 1)>>
          [] c < 48 -> Bin(PickSeq(h3, <<"+", "-", "*", "/">>), AnyTerm(h1, d - 1), AnyTerm(h2, d - 1))
          [] c < 52 -> Bin(PickSeq(h3, <<"<", ">", "<=", ">=", "==", "!=">>), AnyTerm(h1, d - 1), AnyTerm(h2, d - 1))
          [] c < 55 -> Bin(PickSeq(h3, <<"%", "<<", "&&", "||", "&", "^", "|", ">>">>), AnyTerm(h1, d - 1), AnyTerm(h2, d - 1))
          [] c < 56 -> <<"u", "!", AnyTerm(h1, d - 1)>>
          [] c < 57 -> <<"c", <<"v", "f">>, <<AnyTerm(h1, d - 1)>> >>
          [] c < 58 -> <<"as", "f32", AnyTerm(h1, d - 1)>>
          [] c < 59 -> <<"f", "re", AnyTerm(h1, d - 1)>>
          [] c < 84 -> Met(PickSeq(h3, Names0), AnyTerm(h1, d - 1), <<>>)
          [] c < 93 -> Met(PickSeq(h3, Names1), AnyTerm(h1, d - 1), <<AnyTerm(h2, d - 1)>>)
          [] c < 99 -> Met(PickSeq(h3, Names2), AnyTerm(h1, d - 1), <<AnyTerm(h2, d - 1), AnyTerm(h4, MinI(d - 1, 1))>>)
          [] OTHER -> Met("sin", AnyTerm(h1, d - 1), <<Leaf(h2), Leaf(h3), Leaf(h4)>>)

EW == 80
Big == <<"big">>
Err == <<"err">>
FromFx(f) == N(ZDivR(ZMul(f, ZPow10(24)), One(EW)), 24)
RECURSIVE Est(_)
Est(t) ==
   LET k == TLCEval([j \in 1..Len(Kids(t)) |-> Est(Kids(t)[j])]) IN
   IF \E j \in 1..Len(k) : k[j] = Big THEN Big
   ELSE IF \E j \in 1..Len(k) : k[j] = Err THEN Err
   ELSE CASE t[1] = "n" -> LitValue(t[2])
          [] t[1] = "b" -> t
          [] t[1] = "p" -> k[1]
          [] t[1] = "v" /\ t[2] = "PI" -> FromFx(FPi(EW))
          [] t[1] = "u" /\ t[2] = "-" /\ Number(k[1]) -> DNeg(k[1])
          [] t[1] = "o" /\ Number(k[1]) /\ Number(k[2]) ->
                LET v == CASE t[2] = "+" -> DAdd(k[1], k[2])
                           [] t[2] = "-" -> DSub(k[1], k[2])
                           [] t[2] = "*" -> DMul(k[1], k[2])
                           [] t[2] = "/" -> IF DSgn(k[2]) = 0 THEN Err
                                            ELSE FromFx(ZDivR(ZMul(Fx(k[1], EW), One(EW)), ZMax(One(0), ZAbs(Fx(k[2], EW)))))
                           [] OTHER -> Err
                IN IF v = Err THEN v ELSE IF DCmp(DAbs(v), N("1", -12)) > 0 THEN Big ELSE Round(v, 40)
          [] t[1] = "m" /\ (\A j \in 1..Len(k) : Number(k[j])) /\ Arity(t[2]) = Len(k) - 1
                        /\ ~Fault(t[2], k[1], Tail(k)) /\ ~Borderline(t[2], k[1], Tail(k), 20) ->
                LET x == k[1] xf == Fx(x, EW) IN
                IF DCmp(DAbs(x), N("1", -6)) > 0 THEN Big
                ELSE CASE t[2] \in {"exp", "exp2", "sin", "cos", "tan", "erf", "erfc"} ->
                             IF DCmp(DAbs(x), IntD(IF t[2] \in {"erf", "erfc"} THEN 20 ELSE IF t[2] \in {"sin", "cos", "tan"} THEN 100000 ELSE 30)) > 0 THEN Big
                             ELSE CASE t[2] = "exp" -> FromFx(FExp(xf, EW))
                                    [] t[2] = "exp2" -> FromFx(FExp(xf, EW))
                                    [] t[2] = "tan" -> IF ZLe(ZAbs(FCos(xf, EW)), ZPow2(EW - 60)) THEN N("1", -5)
                                                       ELSE FromFx(FDiv(FSin(xf, EW), FCos(xf, EW), EW))
                                    [] t[2] = "sin" -> FromFx(FSin(xf, EW))
                                    [] t[2] = "cos" -> FromFx(FCos(xf, EW))
                                    [] t[2] = "erf" -> FromFx(FErf(xf, EW))
                                    [] OTHER -> FromFx(ZSub(One(EW), FErf(xf, EW)))
                       [] t[2] \in {"ln", "log2", "log10"} -> IF xf = "0" THEN Big ELSE FromFx(FLn(xf, EW))
                       [] t[2] = "log" -> IF xf = "0" \/ Fx(k[2], EW) = "0" THEN Big
                                          ELSE LET b == FLn(Fx(k[2], EW), EW) IN
                                               IF ZLe(ZAbs(b), ZPow2(EW - 10)) THEN Big ELSE FromFx(FDiv(FLn(xf, EW), b, EW))
                       [] t[2] \in {"powf", "powi"} ->
                             IF xf = "0" \/ ZLe(ZMul(20, One(EW)), ZAbs(FMul(Fx(k[2], EW), FLn(xf, EW), EW))) THEN Big
                             ELSE FromFx(FPow(xf, Fx(k[2], EW), EW))
                       [] t[2] = "recip" -> IF ZLe(ZAbs(xf), ZPow2(EW - 30)) THEN Big ELSE FromFx(FDiv(One(EW), xf, EW))
                       [] t[2] = "sqrt" -> FromFx(FSqrt(xf, EW))
                       [] t[2] \in {"asin", "acos", "atan"} -> FromFx(FAtan(xf, EW))
                       [] t[2] = "round" -> Round(x, 0)
                       [] t[2] = "abs" -> DAbs(x)
                       [] t[2] = "signum" -> IntD(DSgn(x))
                       [] t[2] = "round_ieee" -> x
                       [] OTHER -> LET z == FDiv(ZSub(xf, Fx(k[2], EW)), ZMax(One(0), Fx(k[3], EW)), EW) IN
                                   IF DCmp(k[3], N("1", 2)) < 0 \/ DCmp(DAbs(k[3]), IntD(1000)) > 0 THEN Big
                                   ELSE IF t[2] = "qnorm" THEN (IF DCmp(x, N("1", 5)) < 0 \/ DCmp(DSub(OneD, x), N("1", 5)) < 0 THEN Big
                                                                ELSE k[2])
                                   ELSE IF ZLe(ZMul(15, One(EW)), ZAbs(z)) THEN Big
                                   ELSE IF t[2] = "pnorm" THEN FromFx(FNorm(z, EW)) ELSE FromFx(FPhi(z, EW))
          [] OTHER -> Err

(***************************************************************************)
(* Scenario k: <<digits, term>>.                                           *)
(***************************************************************************)
Huge == <<"20000", "1e6", "1e30", "123456789.125", "1e-40", "5000", "4999.5", "300">>
HugeTerm(h) == LET x == Sig(Split(h, 1), Num(PickSeq(Split(h, 2), Huge)))
                   n == PickSeq(Split(h, 3), <<"exp", "exp2", "sin", "cos", "tan", "erf", "erfc", "atan", "powf", "pnorm", "dnorm", "ln", "sqrt",
                                               "recip", "log10", "asin", "signum">>)
               IN Met(n, x, IF n = "powf" THEN <<Num(PickSeq(Split(h, 4), <<"2", "0.5", "100", "20000">>))>>
                            ELSE IF n \in {"pnorm", "dnorm"} THEN <<Num("0"), Num("1")>> ELSE <<>>)
H(k) == ZMix(ZMix(ZMix(Seed, ZHash(Mode, 1000003)), 77), k)
\* Every binary operator over and under every other, on both sides.
Ops4 == <<"+", "-", "*", "/">>
Grid(k) == LET a == Ops4[(k % 4) + 1] b == Ops4[((k \div 4) % 4) + 1] c == (k \div 16) % 4 IN
           CASE c = 0 -> Bin(a, Bin(b, Num("7"), Num("3")), Num("0.8"))
             [] c = 1 -> Bin(a, Num("7"), Bin(b, Num("3"), Num("0.8")))
             [] c = 2 -> Neg(Bin(a, Num("7"), Bin(b, Num("3"), Neg(Num("0.8")))))
             [] OTHER -> Bin(a, Neg(Num("7")), <<"p", Bin(b, Num("3"), Num("0.8"))>>)
\* A number to be rounded to a float: halfway between neighbours, just beside, small, large or any.
FloatMid(h, b) ==     \* a decimal exactly halfway, or a little off
   LET e == -60 + Pick(Split(h, 1), 90)
       m == ZAdd(ZPow2(FL!Prec(b)), ZMul(2, ZRandBits(Split(h, 2), FL!Prec(b) - 1)))
       odd == ZAdd(m, IF Pick(Split(h, 3), 4) = 0 THEN "0" ELSE "1")
       v == IF e >= 0 THEN N(ZMul(odd, ZPow2(e)), 0) ELSE N(ZMul(odd, ZPow(5, -e)), -e)
       off == N(IF Pick(Split(h, 4), 2) = 0 THEN "1" ELSE "-1", v[3] + 1 + Pick(Split(h, 5), 30))
   IN IF Pick(Split(h, 6), 3) = 0 THEN v ELSE DAdd(v, off)
Rough(h) == PickSeq(h, <<"1e-46", "1e-45", "7.1e-46", "7.0e-46", "3.4e38", "3.40282347e38", "3.4028236e38", "3.4028235677973366e38", "1e39", "1e308",
                         "1.7976931348623157e308", "1.7976931348623159e308", "1e309", "1e-320", "4.9e-324", "2.4e-324", "2.5e-324", "1e-400", "0",
                         "0.1", "1.17549435e-38", "2.2250738585072014e-308", "16777217", "9007199254740993", "0.333333333333", "3e0", "100", "1e22", "1e23">>)
Ieee(h) == LET b == IF Pick(Split(h, 1), 2) = 0 THEN 32 ELSE 64
               v == FloatMid(Split(h, 2), b)
               x == CASE Pick(Split(h, 3), 4) = 0 -> Num(Rough(Split(h, 4)))
                      [] Pick(Split(h, 3), 4) = 1 -> Num(RandLit(Split(h, 4), 150, 60))
                      [] OTHER -> Num(ZShow(v[2], v[3]))
           IN Met("round_ieee", Sig(Split(h, 5), x),
                  <<Num(IF Pick(Split(h, 6), 40) = 0 THEN PickSeq(Split(h, 7), <<"16", "0", "33">>) ELSE ZI(b))>>)
\* A quotient or product halfway between two numbers of d places, or just beside.
Tie(h, d) ==
   LET b == ZAdd(ZRandBits(Split(h, 1), 1 + Pick(Split(h, 2), 80)), "3")
       odd == ZMul(5, ZAdd(ZMul(2, ZRandBits(Split(h, 3), 1 + Pick(Split(h, 4), 400))), 1))
       off == <<"-1", "0", "1">>[1 + Pick(Split(h, 5), 3)]
       far == Pick(Split(h, 6), 130)
       near(m, n) == Num(ZShow(ZAdd(ZMul(m, ZPow10(far)), off), n + far))
   IN IF Pick(h, 3) > 0 THEN Bin("/", Sig(Split(h, 7), near(ZMul(odd, b), d + 1)), Sig(Split(h, 8), Num(b)))
      ELSE LET n == Pick(Split(h, 9), d + 2) IN Bin("*", Sig(Split(h, 7), near(odd, n)), Sig(Split(h, 8), Num(ZShow("1", d + 1 - n))))
\* digits beyond those of the arithmetic's own divisions, and hardly any
DigitsE(h, d) == CASE Pick(h, 7) = 0 -> Pick(Split(h, 1), 5)
                   [] Pick(h, 7) = 1 -> PickSeq(Split(h, 1), <<100, 99, 120, 150, 200, 101>>)
                   [] OTHER -> d
Term(k) ==
   LET h == H(k) d == Digits(Split(h, 91)) IN
   CASE Mode = "E01" -> IF k <= 64 THEN <<20, Grid(k - 1)>>
                        ELSE IF Pick(Split(h, 6), 8) = 0 THEN LET e == DigitsE(Split(h, 94), d) IN <<e, Tie(Split(h, 7), e)>>
                        ELSE <<DigitsE(Split(h, 94), d),
                               IF Pick(Split(h, 1), 5) = 0 THEN Compare(Split(h, 2), 3) ELSE Arith(Split(h, 2), 1 + Pick(Split(h, 3), 4))>>
     [] Mode = "E02" /\ k % 8 = 0 -> <<IF Pick(Split(h, 1), 2) = 0 THEN 20 ELSE d, Ieee(Split(h, 2))>>
     [] Mode = "E02" -> <<20, LET t == Arith(Split(h, 2), Pick(Split(h, 3), 2)) IN
                              Met("round", IF Pick(h, 2) = 0 THEN t
                                           ELSE Sig(Split(h, 4), <<"p", Bin("+", Num(ZI(Pick(Split(h, 5), 20))),
                                                    Num(PickSeq(Split(h, 6), <<"0.5", "0.50", "0.4999999", "0.500001", "0.25", "0.0">>)))>>), <<>>)>>
     [] Mode = "E03" -> <<d, Elem(h, Elementary[(k % Len(Elementary)) + 1], d)>>
     [] Mode = "E04" -> LET e == IF d > 40 THEN 40 ELSE IF d < 6 THEN 6 ELSE d IN <<e, NormE(h, Normals[(k % Len(Normals)) + 1], e)>>
     [] k % 150 = 0 -> <<20, HugeTerm(h)>>
     [] OTHER -> LET t == AnyTerm(h, 1 + Pick(Split(h, 92), 4)) IN
                 IF Est(t) = Big \/ Size(t) > 40 THEN <<10, Num("1")>>
                 ELSE <<PickSeq(Split(h, 93), <<20, 40, 10, 5, 30>>), t>>


\* Roundings: a number and a count of places.
Rounding(k) ==
   LET h == H(k)
       p == Pick(Split(h, 1), 25)          \* places kept
       q == p + 1 + Pick(Split(h, 2), 20)  \* places had
       m == ZRandBits(Split(h, 3), 1 + Pick(Split(h, 4), 120))
       \* exactly a tie, just beside one, all nines, or anything
       tie == ZAdd(ZMul(m, ZPow10(q - p)), ZMul(5, ZPow10(q - p - 1)))
       n == CASE Pick(h, 6) = 0 -> tie
              [] Pick(h, 6) = 1 -> ZAdd(tie, 1)
              [] Pick(h, 6) = 2 -> ZSub(tie, 1)
              [] Pick(h, 6) = 3 -> ZSub(ZPow10(q + Pick(Split(h, 7), 5)), 1 + Pick(Split(h, 8), 60))
              [] Pick(h, 6) = 4 -> ZRandBits(Split(h, 9), 60)
              [] OTHER -> ZMul(m, ZPow10(q - p))
   IN <<ZShow(IF Pick(Split(h, 6), 2) = 0 THEN n ELSE ZNeg(n), q), IF Pick(Split(h, 5), 8) = 0 THEN q + Pick(h, 3) ELSE p>>
IsRounding(k) == Mode = "E02" /\ k % 4 # 0

Line(k) == IF IsRounding(k) THEN LET r == Rounding(k) IN ZI(k) \o "\tround\t" \o r[1] \o "\t" \o ZI(r[2])
           ELSE LET s == Term(k) IN ZI(k) \o "\teval\t" \o ZI(s[1]) \o "\t" \o Text(s[2])
Mod(a, b) == a % b
Init == i \in {c \in 1..Count : Mod(c, Chunk) = 1}
Next == /\ i <= Count
        /\ ZEmit(ScenFile, Line(i))
        /\ Mod(i, Chunk) # 0
        /\ i' = i + 1
===============================================================================
