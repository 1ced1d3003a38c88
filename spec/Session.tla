-------------------------------- MODULE Session --------------------------------
(***************************************************************************)
(* A history of operations on expressions.                                 *)
(*                                                                         *)
(* State: a sequence of registers, each holding the term algebra           *)
(* prescribes. Every operation appends one register.                       *)
(*   <<"P", t>>            parse the text of t                             *)
(*   <<"+", a, b>> ...     combine registers a and b                       *)
(*   <<"S", a, bs>>        substitute in a; bs: sequence of <<name, reg>>  *)
(*   <<"E", a>> <<"(", a>> <<"C", a, name>>  expand, parenthesise, collect *)
(*   <<"R", a>>            print and parse again                           *)
(*   <<"N", a, type, bits>>  convert to a number type                      *)
(* Registers are numbered from 0.                                          *)
(***************************************************************************)
EXTENDS Terms

IsNum(t) == t[1] = "n"
NumVal(t) == ZDec(t[2])
\* Exact sums, differences and products of decimals <<m, e>>.
Scale(d, e) == ZMul(d[1], ZPow10(e - d[2]))
MaxI(a, b) == IF a < b THEN b ELSE a
DecOp(op, a, b) ==
   LET e == MaxI(a[2], b[2]) IN
   CASE op = "+" -> <<ZAdd(Scale(a, e), Scale(b, e)), e>>
     [] op = "-" -> <<ZSub(Scale(a, e), Scale(b, e)), e>>
     [] op = "*" -> <<ZMul(a[1], b[1]), a[2] + b[2]>>
DecEq(a, b) == LET e == MaxI(a[2], b[2]) IN Scale(a, e) = Scale(b, e)
DecZero(a) == ZSgn(a[1]) = 0

\* The term a history prescribes for one more operation.
After(op, regs) ==
   LET r(k) == regs[k + 1] IN
   CASE op[1] = "P" -> op[2]
     [] op[1] \in {"+", "-", "*", "/"} -> <<"o", op[1], <<"p", r(op[2])>>, <<"p", r(op[3])>> >>
     [] op[1] = "S" -> Sub(r(op[2]), [j \in 1..Len(op[3]) |-> <<op[3][j][1], r(op[3][j][2])>>])
     [] OTHER -> r(op[2])

(***************************************************************************)
(* The syntactic shapes the properties promise.                            *)
(***************************************************************************)
IsOp(t) == t[1] \in {"o", "u"}
RECURSIVE FullyGrouped(_)
FullyGrouped(t) ==
   CASE t[1] = "o" -> ~IsOp(t[3]) /\ ~IsOp(t[4]) /\ FullyGrouped(t[3]) /\ FullyGrouped(t[4])
     [] t[1] = "u" -> ~IsOp(t[3]) /\ FullyGrouped(t[3])
     [] t[1] = "p" -> FullyGrouped(t[2])
     [] t[1] = "m" -> FullyGrouped(t[3]) /\ \A j \in 1..Len(t[4]) : FullyGrouped(t[4][j])
     [] t[1] \in {"f", "as"} -> FullyGrouped(t[3])
     [] t[1] = "c" -> \A j \in 1..Len(t[3]) : FullyGrouped(t[3][j])
     [] t[1] = "i" -> FullyGrouped(t[2]) /\ FullyGrouped(t[3])
     [] t[1] = "r" -> FullyGrouped(t[2])
     [] t[1] = "t" -> \A j \in 1..Len(t[2]) : FullyGrouped(t[2][j])
     [] OTHER -> TRUE

IsSum(t) == t[1] = "o" /\ t[2] \in {"+", "-"}
IsProd(t) == t[1] = "o" /\ t[2] = "*"
\* No product has a sum as a factor and no negation a sum as its operand, among the sums, products,
\* negations and groups that make up the expression.
RECURSIVE SumOfProducts(_)
SumOfProducts(t) ==
   CASE t[1] = "p" -> SumOfProducts(t[2])
     [] IsSum(t) -> SumOfProducts(t[3]) /\ SumOfProducts(t[4])
     [] IsProd(t) -> /\ ~IsSum(Depar(t[3])) /\ ~IsSum(Depar(t[4]))
                     /\ SumOfProducts(t[3]) /\ SumOfProducts(t[4])
     [] t[1] = "u" /\ t[2] = "-" -> ~IsSum(Depar(t[3])) /\ SumOfProducts(t[3])
     [] OTHER -> TRUE
\* The operands that are neither sum, difference, product, negation nor literal nor name.
RECURSIVE Opaque(_)
Opaque(t) ==
   CASE t[1] \in {"p", "g"} -> Opaque(t[2])
     [] t[1] = "u" /\ t[2] = "-" -> Opaque(t[3])
     [] IsSum(t) \/ IsProd(t) -> Opaque(t[3]) \union Opaque(t[4])
     [] t[1] \in {"m", "f"} -> {<<t[1], t[2]>>}
     [] t[1] \in {"o", "u"} -> {<<t[1], t[2]>>}
     [] t[1] \in {"c", "as", "i", "r", "t"} -> {<<t[1], "">>}
     [] OTHER -> {}

(***************************************************************************)
(* What an observed result must satisfy. prev: the observed syntax trees   *)
(* of the registers; want: the prescribed term; got: the report.           *)
(***************************************************************************)
\* Two literals combine to a literal.
LiteralResult(op, a, b, got) ==
   /\ got.ast[1] = "n" \/ (got.ast[1] = "u" /\ got.ast[3][1] = "n")
   /\ LET g == IF got.ast[1] = "n" THEN NumVal(got.ast) ELSE <<ZNeg(NumVal(got.ast[3])[1]), NumVal(got.ast[3])[2]>>
          x == NumVal(a)
          y == NumVal(b)
      IN /\ g[1] # "bad"
         /\ IF op[1] = "/"
            THEN \* |g * y - x| <= |y| 10^-90 + |x| 10^-90
                 LET w == g[2] + y[2] + x[2] + 90
                     lhs == ZAbs(ZSub(ZMul(ZMul(g[1], y[1]), ZPow10(w - g[2] - y[2])), ZMul(x[1], ZPow10(w - x[2]))))
                     rhs == ZAdd(ZMul(ZAbs(y[1]), ZPow10(w - y[2] - 90)), ZMul(ZAbs(x[1]), ZPow10(w - x[2] - 90)))
                 IN ZLe(lhs, rhs)
            ELSE DecEq(g, DecOp(op[1], x, y))

Problem(op, prev, terms, got) ==
   LET a == IF op[1] = "P" THEN <<"none">> ELSE prev[op[2] + 1]
       want == After(op, terms)
       lits == op[1] \in {"+", "-", "*", "/"} /\ IsNum(a) /\ IsNum(prev[op[3] + 1])
       valueKept == IF lits THEN LiteralResult(op, a, prev[op[3] + 1], got)
                    ELSE IF op[1] = "N" THEN TRUE ELSE Same(got.ast, want)
   IN CASE got.st # "ok" -> "no result: " \o got.st
        [] ~got.kept -> "another expression changed"
        [] ~valueKept -> "value: " \o op[1]
        [] got.re[1] = "none" -> "the printed form is not an expression"
        [] ~Same(got.re, got.ast) -> "the printed form means something else"
        [] op[1] = "P" /\ Bare(got.ast) # Bare(op[2]) -> "parsed differently"
        [] op[1] = "E" /\ ~SumOfProducts(got.ast) -> "not a sum of products"
        [] op[1] = "E" /\ Opaque(got.ast) # Opaque(a) -> "an operand was lost or invented"
        [] op[1] = "(" /\ ~FullyGrouped(got.ast) -> "an operand is not parenthesised"
        [] op[1] = "(" /\ Bare(got.ast) # Bare(a) -> "more than parentheses changed"
        [] op[1] = "(" /\ FullyGrouped(a) /\ got.ast # a -> "parenthesised twice"
        [] got.lit # (got.ast[1] \in {"n", "b", "s"}) -> "is_lit"
        [] got.num # (got.ast[1] = "n") -> "is_numeric"
        [] OTHER -> ""

\* A refusal is allowed only for constructs outside the supported syntax.
MayRefuse(op, prev, got) ==
   /\ got.st = "err"
   /\ got.kept
   /\ op[1] \in {"S", "E", "(", "C", "N"}
   /\ ~Supported(prev[op[2] + 1])

(***************************************************************************)
(* Histories. Scenario i is a sequence of operations; the choice of each   *)
(* operation depends on the registers, so that sizes stay small and no     *)
(* literal is divided by a literal zero.                                   *)
(***************************************************************************)
CONSTANTS Seed, Mode

NBase == 4
Modes == [A01 |-> <<"+", "-", "*", "/", "P", "+", "-", "*", "/">>,
          A02 |-> <<"S", "S", "S", "P", "+", "*">>,
          A03 |-> <<"E", "E", "E", "*", "-", "+">>,
          A04 |-> <<"(", "(", "C", "*", "-", "(">>,
          A05 |-> <<"S", "E", "(", "N", "*", "-", "R", "N">>,
          A06 |-> <<"+", "-", "*", "/", "S", "E", "(", "C", "R">>]
Flavour(h) == IF Mode = "A03" THEN PickSeq(h, <<"lin", "lin", "arith", "full", "arith", "lin", "arith", "odd">>)
              ELSE PickSeq(h, <<"lin", "arith", "arith", "full", "lin", "arith", "full", "odd">>)

\* The paths of a term, and for members of types the paths that differ from them by the type.
RECURSIVE Near(_), NearSeq(_, _)
NearSeq(ts, j) == IF j > Len(ts) THEN <<>> ELSE Near(ts[j]) \o NearSeq(ts, j + 1)
Near(t) ==
   CASE t[1] = "v" -> (CASE t[2] = "<f64 as a>::x" -> <<"a::x">> [] t[2] = "<f64>::x" -> <<"::x">> [] t[2] = "<x>::y" -> <<"x::y">>
                         [] \E j \in 1..Len(Paths) : Paths[j] = t[2] -> <<t[2]>> [] OTHER -> <<>>)
     [] t[1] \in {"p", "r"} -> Near(t[2])
     [] t[1] \in {"u", "f", "as"} -> Near(t[3])
     [] t[1] \in {"o"} -> Near(t[3]) \o Near(t[4])
     [] t[1] = "m" -> Near(t[3]) \o NearSeq(t[4], 1)
     [] t[1] = "c" -> NearSeq(t[3], 1)
     [] OTHER -> <<>>

\* The operation a history h takes next, given the prescribed terms so far.
Choose(h, regs) ==
   LET n == Len(regs)
       \* prefer recent registers
       reg(hh) == IF Pick(hh, 3) = 0 THEN n - 1 ELSE Pick(Split(hh, 9), n)
       o == PickSeq(Split(h, 1), Modes[Mode])
       a == reg(Split(h, 2))
       b == reg(Split(h, 3))
       ta == regs[a + 1]
       tb == regs[b + 1]
       fallback == <<"P", Gen(Split(h, 4), 1 + Pick(Split(h, 5), 2), Flavour(Split(h, 6)))>>
   IN IF n < 2 THEN <<"P", Gen(Split(h, 4), (IF Mode \in {"A01", "A06"} THEN 1 ELSE 2) + Pick(Split(h, 5), 3), Flavour(Split(h, 6)))>>
      ELSE CASE o = "P" -> fallback
        [] o \in {"+", "-", "*", "/"} ->
             IF Size(ta) + Size(tb) > 90 THEN fallback
             ELSE IF o = "/" /\ IsNum(tb) /\ DecZero(NumVal(tb)) THEN <<"*", a, b>>
             ELSE <<o, a, b>>
        [] o = "S" ->
             LET m == 1 + Pick(Split(h, 7), 3)
                 near == Near(ta)
                 bs == [j \in 1..m |-> <<IF near # <<>> /\ Pick(Split(h, 40 + j), 3) = 0 THEN PickSeq(Split(h, 20 + j), near)
                                         ELSE IF Pick(Split(h, 10 + j), 8) = 0 THEN PickSeq(Split(h, 20 + j), Paths) ELSE PickSeq(Split(h, 20 + j), Names),
                                         reg(Split(h, 30 + j))>>]
                 op == <<"S", a, bs>>
             IN IF Size(ta) > 60 \/ Size(After(op, regs)) > 120 THEN fallback ELSE op
        [] o = "E" -> IF Summands(ta) > 24 \/ Size(ta) > 70 THEN fallback ELSE <<"E", a>>
        [] o = "C" -> <<"C", a, PickSeq(Split(h, 8), Names)>>
        [] o = "N" -> <<"N", a, PickSeq(Split(h, 8), <<"decimal", "hex", "octal">>), PickSeq(Split(h, 9), <<"32", "64">>)>>
        [] OTHER -> <<o, a>>

RECURSIVE BindText(_, _)
BindText(bs, j) == IF j > Len(bs) THEN "" ELSE " " \o bs[j][1] \o "=" \o ZI(bs[j][2]) \o BindText(bs, j + 1)
OpText(op) ==
   CASE op[1] = "P" -> "P " \o Text(op[2])
     [] op[1] \in {"+", "-", "*", "/"} -> op[1] \o " " \o ZI(op[2]) \o " " \o ZI(op[3])
     [] op[1] = "S" -> "S " \o ZI(op[2]) \o BindText(op[3], 1)
     [] op[1] = "C" -> "C " \o ZI(op[2]) \o " " \o op[3]
     [] op[1] = "N" -> "N " \o ZI(op[2]) \o " " \o op[3] \o " " \o op[4]
     [] OTHER -> op[1] \o " " \o ZI(op[2])

HistoryLength(h) == IF Mode = "A06" THEN 5 + Pick(Split(h, 77), 5) ELSE 3 + Pick(Split(h, 77), 4)

\* The operations and prescribed terms of the random history number i.
RECURSIVE Grow(_, _, _, _, _)
Grow(h, k, n, ops, regs) ==
   IF k > n THEN ops
   ELSE LET op == Choose(Split(h, k), regs) IN Grow(h, k + 1, n, Append(ops, op), Append(regs, After(op, regs)))
\* Some histories make a literal of a negative number first, and put it into an expression.
Negative(h) == LET regs == <<Num(PickSeq(Split(h, 1), <<"0", "0.5", "1.25", "1">>)), Num(PickSeq(Split(h, 2), <<"3", "10", "2.5f32", "1.10", "1.5e2">>))>>
                   minus == <<"-", 0, 1>>
                   t == Gen(Split(h, 3), 1 + Pick(Split(h, 4), 3), Flavour(Split(h, 5)))
               IN << <<"P", regs[1]>>, <<"P", regs[2]>>, minus, <<"P", t>>,
                     <<"S", 3, [j \in 1..3 |-> <<PickSeq(Split(h, 5 + j), Names), 2>>]>> >>
RECURSIVE Replay(_, _, _)
Replay(ops, k, regs) == IF k > Len(ops) THEN regs ELSE Replay(ops, k + 1, Append(regs, After(ops[k], regs)))
RandomHistory(i) == LET h == ZMix(ZMix(Seed, 4242), i)
                        first == IF Pick(Split(h, 78), 8) = 0 THEN Negative(Split(h, 79)) ELSE <<>>
                    IN Grow(h, 1, HistoryLength(h), first, Replay(first, 1, <<>>))

(***************************************************************************)
(* Exhaustive histories: every sequence of three operations over a fixed   *)
(* menu, from a fixed set of starting expressions.                         *)
(***************************************************************************)
X == <<"v", "x">>
Y == <<"v", "y">>
Two == Num("2")
Bin(op, l, r) == <<"o", op, l, r>>
Starts == << <<X, Two>>, <<Bin("+", X, Num("1")), Bin("-", Y, X)>>, <<Bin("*", X, Y), <<"u", "-", Bin("+", X, Y)>> >>,
             <<Num("1.5"), Num("0.25")>>, <<Bin("/", X, Y), Bin("-", X, Two)>>,
             <<Bin("%", Bin("*", X, Two), Y), <<"m", "sin", <<"p", Bin("-", X, Y)>>, <<>> >> >>,
             <<Bin("-", X, Bin("-", Y, Two)), <<"u", "-", X>> >>, <<Bin("*", Bin("-", X, Y), Bin("-", X, Two)), Bin("<<", X, Bin("+", Y, Num("1")))>> >>
\* An operation on the newest register p and the one before it q.
Menu(p, q) == << <<"+", p, q>>, <<"-", p, q>>, <<"-", q, p>>, <<"*", p, q>>, <<"/", p, q>>, <<"S", p, << <<"x", q>> >> >>,
                 <<"S", p, << <<"y", q>>, <<"x", p>>, <<"y", p>> >> >>, <<"E", p>>, <<"(", p>>, <<"C", p, "x">>, <<"R", p>>, <<"*", p, p>> >>
NMenu == 12
NExhaustive == Len(Starts) * NMenu * NMenu * NMenu
ExhaustiveHistory(i) ==
   LET s == Starts[(i % Len(Starts)) + 1]
       j == i \div Len(Starts)
       \* the first operation works on the two starting expressions (registers 0 and 1)
   IN << <<"P", s[1]>>, <<"P", s[2]>>, Menu(1, 0)[(j % NMenu) + 1], Menu(2, 1)[((j \div NMenu) % NMenu) + 1],
         Menu(3, 2)[((j \div (NMenu * NMenu)) % NMenu) + 1] >>
===============================================================================
