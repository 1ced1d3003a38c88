---------------------------------- MODULE Eval ---------------------------------
(***************************************************************************)
(* Evaluation of constant expressions to a number of decimal digits.       *)
(*                                                                         *)
(* The state machine evaluates the nodes of an expression bottom up. What  *)
(* a node may evaluate to is a relation between the values observed for    *)
(* its operands and its own: a number within the tolerance of the true     *)
(* value of the operation on the operands, a truth value, or an error when *)
(* and only when the operation is faulty.                                  *)
(*                                                                         *)
(* A value is <<"n", m, e>> (m * 10^-e), <<"b", truth>>, <<"s">> (another  *)
(* literal, which stands for itself) or <<"err">>.                         *)
(***************************************************************************)
EXTENDS Terms, RealFn
FL == INSTANCE Float

(***************************************************************************)
(* Decimal numbers.                                                        *)
(***************************************************************************)
N(m, e) == <<"n", m, e>>
Align(a, e) == ZMul(a[2], ZPow10(e - a[3]))          \* the digits of a at scale e >= its own
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a > b THEN b ELSE a
Top(a, b) == MaxI(a[3], b[3])
DAdd(a, b) == LET e == Top(a, b) IN N(ZAdd(Align(a, e), Align(b, e)), e)
DSub(a, b) == LET e == Top(a, b) IN N(ZSub(Align(a, e), Align(b, e)), e)
DMul(a, b) == N(ZMul(a[2], b[2]), a[3] + b[3])
DCmp(a, b) == LET e == Top(a, b) IN ZCmp(Align(a, e), Align(b, e))
DNeg(a) == N(ZNeg(a[2]), a[3])
DAbs(a) == N(ZAbs(a[2]), a[3])
DSgn(a) == ZCmp(a[2], "0")
IntD(k) == N(ZI(k), 0)
IsInt(a) == a[3] <= 0 \/ ZMod(a[2], ZPow10(a[3])) = "0"
Round(a, d) == IF a[3] <= d THEN a ELSE N(ZDivR(a[2], ZPow10(a[3] - d)), d)
DEq(a, b) == DCmp(a, b) = 0
\* the bits of the float nearest to a, of as many bits as n says, and the number that a float is
IeeeBits(n) == IF DEq(n, IntD(32)) THEN 32 ELSE 64
NearestFloat(a, b) == FL!NearestDec(a[2], a[3], b)
FloatValue(f, b) == LET m == FL!FM(f, b) e == FL!FE(f, b) IN
                    IF e >= 0 THEN N(ZMul(m, ZPow2(e)), 0) ELSE N(ZMul(m, ZPow(5, -e)), -e)
\* |x - got| <= half a unit in place d
WithinHalf(xnum, xden, xe, got, d) ==      \* the true value is xnum / xden * 10^-xe
   LET s == MaxI(MaxI(xe, got[3]), d + 1) + 30
       diff == ZAbs(ZSub(ZMul(ZMul(got[2], ZPow10(s - got[3])), xden), ZMul(xnum, ZPow10(s - xe))))
       half == ZMul(ZMul(5, ZPow10(s - d - 1)), ZAbs(xden))
   IN ZLe(diff, half)

(***************************************************************************)
(* Fixed point views of a decimal number.                                  *)
(***************************************************************************)
Fx(a, w) == FromDec(a[2], a[3], w)
\* the logarithm of a decimal number, however small
LnDec(a, w) == LET v == w + 4 * MaxI(0, a[3]) IN Rescale(FLn(Fx(a, v), v), v, w)
PowDec(a, y, w) == LET v == w + 300 + 2 * ZBits(ZShl(Fx(y, w), -w)) IN
                   Rescale(FExp(FMul(Fx(y, v), LnDec(a, v), v), v), v, w)
Width(d) == ((d * 10) \div 3) + 60
Units(n, d, w) == FromRat(n, ZPow10(d), w)
\* |got - want| <= tol
Close(want, got, tol, w) == ZLe(ZAbs(ZSub(want, Fx(got, w))), ZAdd(tol, ZPow2(12)))

(***************************************************************************)
(* Methods: which there are, their faults and their results.               *)
(***************************************************************************)
Unary0 == {"round", "abs", "signum", "recip", "sqrt", "exp", "exp2", "ln", "log2", "log10", "sin", "cos", "tan",
           "asin", "acos", "atan", "erf", "erfc"}
Binary1 == {"powi", "powf", "log", "round_ieee"}
Ternary2 == {"dnorm", "pnorm", "qnorm"}
Arity(name) == CASE name \in Unary0 -> 0 [] name \in Binary1 -> 1 [] name \in Ternary2 -> 2 [] OTHER -> -1

Zero == IntD(0)
OneD == IntD(1)
\* an operand for which the method has no value
Fault(name, x, args) ==
   CASE name = "recip" -> DSgn(x) = 0
     [] name = "sqrt" -> DSgn(x) < 0
     [] name \in {"ln", "log2", "log10"} -> DSgn(x) <= 0
     [] name \in {"powi", "powf"} -> DSgn(x) <= 0
     [] name = "log" -> DSgn(x) <= 0 \/ DSgn(args[1]) <= 0 \/ DEq(args[1], OneD)
     [] name \in {"asin", "acos"} -> DCmp(DAbs(x), OneD) > 0
     \* neither format, or a number beyond its range
     [] name = "round_ieee" -> \/ ~(DEq(args[1], IntD(32)) \/ DEq(args[1], IntD(64)))
                               \/ ~FL!IsFinite(NearestFloat(x, IeeeBits(args[1])), IeeeBits(args[1]))
     [] name \in {"dnorm", "pnorm"} -> DSgn(args[2]) <= 0
     [] name = "qnorm" -> DSgn(args[2]) <= 0 \/ DSgn(x) <= 0 \/ DCmp(x, OneD) >= 0
     [] OTHER -> FALSE
\* where the number of digits asked for decides whether there is a value
Borderline(name, x, args, d) ==
   \/ name = "log" /\ DCmp(DAbs(DSub(args[1], OneD)), N("1", d - 2)) < 0
   \/ name = "round_ieee" /\ ~IsInt(args[1])
   \* results of thousands of digits may be refused
   \/ name \in {"exp", "exp2"} /\ DCmp(x, IntD(2000)) > 0
   \/ name \in {"powf", "powi"} /\ DSgn(x) > 0 /\ ZLe(ZMul(2000, One(80)), FMul(Fx(args[1], 80), LnDec(x, 80), 80))
   \/ name = "tan" /\ LET w == Width(d) + 400 IN ZLe(ZAbs(FCos(Fx(x, w), w)), Units(100, d, w))
\* arguments for which the accuracy of the series is promised
Promised(name, x, args, d) ==
   CASE name = "exp" -> DCmp(DAbs(x), IntD(300)) <= 0
     [] name = "exp2" -> DCmp(DAbs(x), IntD(400)) <= 0
     \* the reduction by whole turns uses 100 digits as well
     [] name \in {"sin", "cos", "tan"} -> DCmp(DAbs(x), IntD(1000000)) <= 0 \/ DCmp(DAbs(x), N("1", d - 90)) <= 0
     [] name \in {"powf", "powi"} -> LET w == 80 IN
          ZLe(ZAbs(FMul(Fx(args[1], w), LnDec(x, w), w)), Fx(IntD(150), w))
     \* with more digits the 100 digits of the arithmetic are used up by the cancellation in the series
     [] name \in {"erf", "erfc"} -> d <= 40 \/ DCmp(DMul(DMul(x, x), IntD(5)), IntD(4 * d)) <= 0
     [] name = "pnorm" -> LET z == DSub(x, args[1]) IN
          d <= 40 \/ DCmp(DMul(DMul(z, z), IntD(5)), DMul(DMul(args[2], args[2]), IntD(8 * d))) <= 0
     [] name = "dnorm" -> DCmp(args[2], N("1", 6)) >= 0
     [] name = "qnorm" -> /\ DCmp(x, N("1", 6)) >= 0 /\ DCmp(DSub(OneD, x), N("1", 6)) >= 0
                          /\ DCmp(args[2], IntD(1000)) <= 0
     [] name \in {"ln", "log2", "log10", "log"} -> x[3] <= d + 40
     [] OTHER -> TRUE

\* The relation between operands and result; units of 10^-d.
MethodOk(name, x, args, d, got) ==
   LET w == Width(d) + 2 * MaxI(0, ZDigits(x[2]) - x[3]) * 4
       u(n) == Units(n, d, w)
       xf == Fx(x, w)
   IN CASE name = "round" -> DEq(got, Round(x, 0))
        [] name = "abs" -> DEq(got, DAbs(x))
        [] name = "signum" -> DEq(got, IntD(DSgn(x)))
        [] name = "recip" -> IF x[3] >= 0 THEN Close(FromRat(ZPow10(x[3]), x[2], w), got, u(1), w)
                             ELSE Close(FromRat("1", ZMul(x[2], ZPow10(-x[3])), w), got, u(1), w)
        [] name = "sqrt" -> LET s == FSqrt(Fx(x, 2 * w), 2 * w) IN Close(Rescale(s, 2 * w, w), got, u(1), w)
        [] name = "exp" -> LET v == w + 500 r == Rescale(FExp(Fx(x, v), v), v, w) IN Close(r, got, ZAdd(u(10), ZDiv(r, ZPow10(90))), w)
        [] name = "exp2" -> LET v == w + 500 r == Rescale(FExp(FMul(Fx(x, v), FLn2(v), v), v), v, w) IN
                            Close(r, got, ZAdd(u(10), FMul(FMul(r, ZAdd(ZAbs(xf), One(w)), w), u(5), w)), w)
        [] name \in {"powf", "powi"} ->
              LET y == Fx(args[1], w)
                  r == PowDec(x, args[1], w)
                  l == ZAdd(ZAbs(LnDec(x, w)), ZMul(3, One(w)))
              IN Close(r, got, ZAdd(u(10), FMul(FMul(r, FMul(ZAbs(y), l, w), w), u(2), w)), w)
        [] name = "ln" -> LET r == LnDec(x, w) IN Close(r, got, FMul(ZAdd(ZAbs(r), ZMul(3, One(w))), u(1), w), w)
        [] name \in {"log2", "log10", "log"} ->
              LET b == CASE name = "log2" -> IntD(2) [] name = "log10" -> IntD(10) [] OTHER -> args[1]
                  lx == LnDec(x, w)
                  lb == LnDec(b, w)
                  r == FDiv(lx, lb, w)
                  ex == FMul(ZAdd(ZAbs(lx), ZMul(3, One(w))), u(1), w)
                  eb == FMul(ZAdd(ZAbs(lb), ZMul(3, One(w))), u(1), w)
              IN Close(r, got, ZAdd(u(2), FDiv(ZMul(2, ZAdd(ex, FMul(eb, ZAbs(r), w))), ZAbs(lb), w)), w)
        [] name = "sin" -> Close(FSin(xf, w), got, u(10), w)
        [] name = "cos" -> Close(FCos(xf, w), got, u(10), w)
        [] name = "tan" -> LET v == 2 * w
                               c == FCos(Fx(x, v), v)
                               t == FDiv(FSin(Fx(x, v), v), c, v)
                           IN \/ ZLe(ZAbs(c), Units(1, d \div 2, v))        \* next to a pole
                              \/ Close(Rescale(t, v, w), got,
                                       Rescale(FMul(ZAdd(One(v), FMul(t, t, v)), Units(20, d, v), v), v, w), w)
        [] name \in {"asin", "acos"} ->
              LET p == IF x[3] >= 0 THEN x[2] ELSE ZMul(x[2], ZPow10(-x[3]))
                  q == IF x[3] >= 0 THEN ZPow10(x[3]) ELSE "1"
              IN Close(IF name = "asin" THEN FAsinR(p, q, w) ELSE FAcosR(p, q, w), got, u(10), w)
        [] name = "atan" -> Close(FAtan(xf, w), got, u(10), w)
        [] name = "erf" -> Close(FErf(xf, w), got, u(10), w)
        [] name = "erfc" -> Close(ZSub(One(w), FErf(xf, w)), got, u(10), w)
        [] name = "dnorm" -> LET s == Fx(args[2], w)
                                 z == FDiv(ZSub(xf, Fx(args[1], w)), s, w)
                             IN Close(FDiv(FPhi(z, w), s, w), got, ZAdd(u(10), FDiv(u(10), s, w)), w)
        [] name = "pnorm" -> LET z == FDiv(ZSub(xf, Fx(args[1], w)), Fx(args[2], w), w) IN
                             Close(FNorm(z, w), got, u(10), w)
        [] name = "qnorm" -> LET z == FDiv(ZSub(Fx(got, w), Fx(args[1], w)), Fx(args[2], w), w)
                                 \* the result itself is rounded to a unit of its own scale
                                 slack == ZAdd(u(5), FDiv(u(1), Fx(args[2], w), w))
                             IN ZLe(ZAbs(ZSub(FNorm(z, w), xf)), slack)
        [] name = "round_ieee" -> DEq(got, FloatValue(NearestFloat(x, IeeeBits(args[1])), IeeeBits(args[1])))
        [] OTHER -> FALSE

Number(v) == v[1] = "n"

(***************************************************************************)
(* One node. Why(t, kids, d, got): "" when the operands may give the       *)
(* result, otherwise the reason why not. t is the node, kids the observed  *)
(* values of its operands, got its own.                                    *)
(***************************************************************************)
LitValue(text) == LET z == ZDec(text) IN IF z[1] = "bad" THEN <<"s">> ELSE N(z[1], z[2])
Expect(want, got) == IF got = want THEN "" ELSE "wrong result"
MustFail(got) == IF got[1] = "err" THEN "" ELSE "a fault was not reported"
NumberOr(got, ok) == IF got[1] = "err" THEN "an error without a fault"
                     ELSE IF got[1] # "n" THEN "not a number"
                     ELSE IF ok THEN "" ELSE "wrong value"
WhyNode(t, kids, d, got) ==
   CASE \E j \in 1..Len(kids) : kids[j][1] = "err" -> MustFail(got)
     [] t[1] = "n" -> LET v == LitValue(t[2]) IN NumberOr(got, got[1] = "n" /\ DEq(v, got))
     [] t[1] = "b" -> Expect(<<"b", t[2]>>, got)
     [] t[1] = "s" -> Expect(<<"s">>, got)
     [] t[1] = "p" -> IF kids[1] = got \/ (Number(got) /\ Number(kids[1]) /\ DEq(got, kids[1])) THEN ""
                      ELSE "parentheses changed the value"
     [] t[1] = "v" -> IF t[2] = "PI" THEN NumberOr(got, Number(got) /\ Close(FPi(Width(d)), got, Units(10, d, Width(d)), Width(d)))
                      ELSE MustFail(got)
     [] t[1] = "u" -> IF t[2] = "-" /\ Number(kids[1]) THEN NumberOr(got, Number(got) /\ DEq(got, DNeg(kids[1])))
                      ELSE MustFail(got)
     [] t[1] = "o" ->
          LET a == kids[1] b == kids[2] IN
          IF ~Number(a) \/ ~Number(b) THEN MustFail(got)
          ELSE CASE t[2] = "+" -> NumberOr(got, Number(got) /\ DEq(got, DAdd(a, b)))
                 [] t[2] = "-" -> NumberOr(got, Number(got) /\ DEq(got, DSub(a, b)))
                 [] t[2] = "*" -> NumberOr(got, Number(got) /\ WithinHalf(ZMul(a[2], b[2]), "1", a[3] + b[3], got, d))
                 [] t[2] = "/" -> IF DSgn(b) = 0 THEN MustFail(got)
                                  ELSE NumberOr(got, Number(got) /\ WithinHalf(a[2], b[2], a[3] - b[3], got, d))
                 [] t[2] = "<" -> Expect(<<"b", DCmp(a, b) < 0>>, got)
                 [] t[2] = ">" -> Expect(<<"b", DCmp(a, b) > 0>>, got)
                 [] t[2] = "<=" -> Expect(<<"b", DCmp(a, b) <= 0>>, got)
                 [] t[2] = ">=" -> Expect(<<"b", DCmp(a, b) >= 0>>, got)
                 [] t[2] = "==" -> Expect(<<"b", DCmp(a, b) = 0>>, got)
                 [] t[2] = "!=" -> Expect(<<"b", DCmp(a, b) # 0>>, got)
                 [] OTHER -> MustFail(got)
     [] t[1] = "m" ->
          IF \E j \in 1..Len(kids) : ~Number(kids[j]) THEN MustFail(got)
          ELSE LET x == kids[1] args == Tail(kids) IN
               CASE Arity(t[2]) # Len(args) -> MustFail(got)
                 [] Borderline(t[2], x, args, d) -> IF got[1] = "n" \/ got[1] = "err" THEN "" ELSE "not a number"
                 [] Fault(t[2], x, args) -> MustFail(got)
                 [] ~Promised(t[2], x, args, d) -> NumberOr(got, TRUE)
                 [] OTHER -> NumberOr(got, Number(got) /\ MethodOk(t[2], x, args, d, got))
     [] OTHER -> MustFail(got)

Kids(t) == CASE t[1] = "p" -> <<t[2]>>
             [] t[1] = "u" -> <<t[3]>>
             [] t[1] = "o" -> <<t[3], t[4]>>
             [] t[1] = "m" -> <<t[3]>> \o t[4]
             [] OTHER -> <<>>
===============================================================================
