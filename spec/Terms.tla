--------------------------------- MODULE Terms ---------------------------------
(***************************************************************************)
(* Expressions, their meaning, their text and their generation.            *)
(*                                                                         *)
(* A term is a tuple tagged by its first component, the shape in which the *)
(* harness reports the syntax trees of the code under test:                *)
(*   <<"n", text>>         numeric literal                                 *)
(*   <<"b", truth>>  <<"s", text>>          other literals                 *)
(*   <<"v", path>>         a name                                          *)
(*   <<"p", t>>  <<"g", t>>                 parenthesised                  *)
(*   <<"u", op, t>>        unary           <<"o", op, l, r>>  binary       *)
(*   <<"m", name, recv, args>>  method      <<"c", fn, args>>  call        *)
(*   <<"f", member, base>>      field       <<"as", type, t>>  cast        *)
(*   <<"i", t, t>> <<"r", t>> <<"t", args>> index, reference, tuple        *)
(*   <<"z", text>>         anything else    <<"none">>   not an expression *)
(*                                                                         *)
(* The meaning of a term in an environment is an element of the field with *)
(* P elements. +, -, * and negation are the field operations, a / b is     *)
(* a * Inv(b) with Inv total, and every other construct is an uninterpreted*)
(* (hash) function of its parts. Two terms that mean the same in every     *)
(* field and for every interpretation agree in every environment; two      *)
(* terms that do not, differ in a random environment with probability      *)
(* about 1 - degree/P, and two independent environments are always used.   *)
(***************************************************************************)
EXTENDS Z, TLC

P == 32749                       \* prime, P^2 < 2^31
Envs == {1, 2}

RECURSIVE PowMod(_, _)
PowMod(a, n) == IF n = 0 THEN 1
                ELSE LET q == PowMod((a * a) % P, n \div 2) IN IF n % 2 = 1 THEN (q * a) % P ELSE q
InvTen == PowMod(10, P - 2)
Inv(a) == IF a = 0 THEN 7919 ELSE PowMod(a, P - 2)

Hash2(tag, a) == ZMix(ZMix(ZHash(tag, 1000003), 5), a) % P
Hash3(tag, a, b) == ZMix(ZMix(ZMix(ZHash(tag, 1000003), 6), a), b) % P

LitMod(text) == LET d == ZDec(text) IN
   IF d[1] = "bad" THEN P ELSE (ZModInt(d[1], P) * PowMod(InvTen, d[2])) % P

\* The value of a name: bindings (a sequence of <<name, value>>) over the base environment k.
RECURSIVE Lookup(_, _, _)
Lookup(name, k, binds) ==
   IF binds = <<>> THEN Hash2(name, k)
   ELSE IF Head(binds)[1] = name THEN Head(binds)[2]
   ELSE Lookup(name, k, Tail(binds))

RECURSIVE Den(_, _, _), DenSeq(_, _, _, _)
DenSeq(ts, j, k, binds) == IF j > Len(ts) THEN 1
                           ELSE Hash3("arg", Den(ts[j], k, binds), DenSeq(ts, j + 1, k, binds))
Den(t, k, binds) ==
   CASE t[1] = "n" -> LitMod(t[2])
     [] t[1] = "v" -> Lookup(t[2], k, binds)
     [] t[1] \in {"p", "g"} -> Den(t[2], k, binds)
     [] t[1] = "u" -> LET v == Den(t[3], k, binds) IN
                      IF t[2] = "-" THEN (P - v) % P ELSE Hash2(t[2], v)
     [] t[1] = "o" -> LET l == Den(t[3], k, binds)
                          r == Den(t[4], k, binds) IN
                      CASE t[2] = "+" -> (l + r) % P
                        [] t[2] = "-" -> (l + P - r) % P
                        [] t[2] = "*" -> (l * r) % P
                        [] t[2] = "/" -> (l * Inv(r)) % P
                        [] OTHER -> Hash3(t[2], l, r)
     [] t[1] = "m" -> Hash3(t[2], Den(t[3], k, binds), DenSeq(t[4], 1, k, binds))
     [] t[1] = "c" -> Hash3("call", Den(t[2], k, binds), DenSeq(t[3], 1, k, binds))
     [] t[1] = "f" -> Hash3("field", ZHash(t[2], P), Den(t[3], k, binds))
     [] t[1] = "as" -> Hash3("as", ZHash(t[2], P), Den(t[3], k, binds))
     [] t[1] = "i" -> Hash3("index", Den(t[2], k, binds), Den(t[3], k, binds))
     [] t[1] = "r" -> Hash2("ref", Den(t[2], k, binds))
     [] t[1] = "t" -> Hash2("tuple", DenSeq(t[2], 1, k, binds))
     [] t[1] = "b" -> IF t[2] THEN Hash2("true", 1) ELSE Hash2("false", 1)
     [] t[1] = "s" -> Hash2("lit", ZHash(t[2], P))
     [] t[1] = "z" -> Hash2("other", ZHash(t[2], P))
     [] OTHER -> P

Same(s, t) == s[1] # "none" /\ t[1] # "none" /\ \A k \in Envs : Den(s, k, <<>>) = Den(t, k, <<>>)

\* Without parentheses.
RECURSIVE Bare(_)
Bare(t) ==
   CASE t[1] \in {"p", "g"} -> Bare(t[2])
     [] t[1] = "u" -> <<"u", t[2], Bare(t[3])>>
     [] t[1] = "o" -> <<"o", t[2], Bare(t[3]), Bare(t[4])>>
     [] t[1] = "m" -> <<"m", t[2], Bare(t[3]), [j \in 1..Len(t[4]) |-> Bare(t[4][j])]>>
     [] t[1] = "c" -> <<"c", Bare(t[2]), [j \in 1..Len(t[3]) |-> Bare(t[3][j])]>>
     [] t[1] = "f" -> <<"f", t[2], Bare(t[3])>>
     [] t[1] = "as" -> <<"as", t[2], Bare(t[3])>>
     [] t[1] = "i" -> <<"i", Bare(t[2]), Bare(t[3])>>
     [] t[1] = "r" -> <<"r", Bare(t[2])>>
     [] t[1] = "t" -> <<"t", [j \in 1..Len(t[2]) |-> Bare(t[2][j])]>>
     [] OTHER -> t

RECURSIVE Depar(_)
Depar(t) == IF t[1] \in {"p", "g"} THEN Depar(t[2]) ELSE t

\* Substitution of terms for names: simultaneous, the first binding of a name counts.
RECURSIVE Bound(_, _)
Bound(name, bs) == IF bs = <<>> THEN <<"none">>
                   ELSE IF Head(bs)[1] = name THEN Head(bs)[2] ELSE Bound(name, Tail(bs))
RECURSIVE Sub(_, _)
Sub(t, bs) ==
   CASE t[1] = "v" -> LET r == Bound(t[2], bs) IN IF r[1] = "none" THEN t ELSE <<"p", r>>
     [] t[1] \in {"p", "g"} -> <<"p", Sub(t[2], bs)>>
     [] t[1] = "u" -> <<"u", t[2], Sub(t[3], bs)>>
     [] t[1] = "o" -> <<"o", t[2], Sub(t[3], bs), Sub(t[4], bs)>>
     [] t[1] = "m" -> <<"m", t[2], Sub(t[3], bs), [j \in 1..Len(t[4]) |-> Sub(t[4][j], bs)]>>
     [] t[1] = "f" -> <<"f", t[2], Sub(t[3], bs)>>
     [] t[1] = "c" -> <<"c", t[2], [j \in 1..Len(t[3]) |-> Sub(t[3][j], bs)]>>
     [] t[1] = "as" -> <<"as", t[2], <<"p", Sub(t[3], bs)>> >>
     [] t[1] = "i" -> <<"i", Sub(t[2], bs), Sub(t[3], bs)>>
     [] t[1] = "r" -> <<"r", Sub(t[2], bs)>>
     [] t[1] = "t" -> <<"t", [j \in 1..Len(t[2]) |-> Sub(t[2][j], bs)]>>
     [] OTHER -> t

\* The constructs every transformation handles.
RECURSIVE Supported(_)
Supported(t) ==
   CASE t[1] \in {"n", "v", "b", "s"} -> TRUE
     [] t[1] = "p" -> Supported(t[2])
     [] t[1] = "u" -> t[2] = "-" /\ Supported(t[3])
     [] t[1] = "o" -> Supported(t[3]) /\ Supported(t[4])
     [] t[1] = "m" -> Supported(t[3]) /\ \A j \in 1..Len(t[4]) : Supported(t[4][j])
     [] t[1] = "f" -> Supported(t[3])
     [] OTHER -> FALSE

RECURSIVE Size(_), SizeSeq(_, _)
SizeSeq(ts, j) == IF j > Len(ts) THEN 0 ELSE Size(ts[j]) + SizeSeq(ts, j + 1)
Size(t) ==
   CASE t[1] \in {"p", "g"} -> 1 + Size(t[2])
     [] t[1] = "u" -> 1 + Size(t[3])
     [] t[1] = "o" -> 1 + Size(t[3]) + Size(t[4])
     [] t[1] = "m" -> 1 + Size(t[3]) + SizeSeq(t[4], 1)
     [] t[1] \in {"f", "as"} -> 1 + Size(t[3])
     [] t[1] = "c" -> 1 + SizeSeq(t[3], 1)
     [] t[1] = "i" -> 1 + Size(t[2]) + Size(t[3])
     [] t[1] = "r" -> 1 + Size(t[2])
     [] t[1] = "t" -> 1 + SizeSeq(t[2], 1)
     [] OTHER -> 1

\* A bound on the number of summands after expansion, and on the factors of each.
Cap(n) == IF n > 1000 THEN 1000 ELSE n
RECURSIVE Summands(_)
Summands(t) ==
   CASE t[1] \in {"p", "g"} -> Summands(t[2])
     [] t[1] = "u" -> Summands(t[3])
     [] t[1] = "o" -> IF t[2] \in {"+", "-"} THEN Cap(Summands(t[3]) + Summands(t[4]))
                      ELSE IF t[2] = "*" THEN Cap(Summands(t[3]) * Summands(t[4])) ELSE 1
     [] OTHER -> 1

(***************************************************************************)
(* Text, with the parentheses Rust's grammar needs and no others.          *)
(***************************************************************************)
Prec(op) ==
   CASE op \in {"*", "/", "%"} -> 12
     [] op \in {"+", "-"} -> 11
     [] op \in {"<<", ">>"} -> 10
     [] op = "&" -> 9
     [] op = "^" -> 8
     [] op = "|" -> 7
     [] op \in {"==", "!=", "<", ">", "<=", ">="} -> 6
     [] op = "&&" -> 5
     [] op = "||" -> 4
     [] OTHER -> 0
Compares(op) == Prec(op) = 6
TermPrec(t) ==
   CASE t[1] = "o" -> Prec(t[2])
     [] t[1] = "as" -> 1        \* always parenthesised: "as f32 <" would open a list of types
     [] t[1] \in {"u", "r"} -> 14
     [] OTHER -> 20

RECURSIVE Text(_), TextIn(_, _), TextSeq(_, _)
TextIn(t, min) == IF TermPrec(t) < min THEN "(" \o Text(t) \o ")" ELSE Text(t)
TextSeq(ts, j) == IF j > Len(ts) THEN ""
                  ELSE (IF j > 1 THEN ", " ELSE "") \o Text(ts[j]) \o TextSeq(ts, j + 1)
Text(t) ==
   CASE t[1] \in {"n", "v", "s", "z"} -> t[2]
     [] t[1] = "b" -> IF t[2] THEN "true" ELSE "false"
     [] t[1] = "p" -> "(" \o Text(t[2]) \o ")"
     [] t[1] = "u" -> t[2] \o " " \o TextIn(t[3], 14)
     [] t[1] = "o" -> TextIn(t[3], IF Compares(t[2]) THEN 7 ELSE Prec(t[2]))
                      \o " " \o t[2] \o " " \o TextIn(t[4], Prec(t[2]) + 1)
     [] t[1] = "m" -> TextIn(t[3], 20) \o "." \o t[2] \o "(" \o TextSeq(t[4], 1) \o ")"
     [] t[1] = "c" -> TextIn(t[2], 20) \o "(" \o TextSeq(t[3], 1) \o ")"
     [] t[1] = "f" -> TextIn(t[3], 20) \o "." \o t[2]
     [] t[1] = "as" -> TextIn(t[3], 13) \o " as " \o t[2]
     [] t[1] = "i" -> TextIn(t[2], 20) \o "[" \o Text(t[3]) \o "]"
     [] t[1] = "r" -> "& " \o TextIn(t[2], 14)
     [] t[1] = "t" -> "(" \o TextSeq(t[2], 1) \o ",)"
     [] OTHER -> "?"

(***************************************************************************)
(* Pseudo-random terms.                                                    *)
(***************************************************************************)
Num(text) == <<"n", text>>
Names == <<"x", "y", "z", "a", "sin", "x1">>
Paths == <<"x::y", "f64::consts::PI", "a::x", "::x", "x::<f64>">>
\* names of types' own members are not variables
Members0 == <<"<f64>::x", "<f64 as a>::x", "<x>::y">>
Lits == <<"0", "1", "2", "3", "10", "0.5", "1.25", "1e2", "1.5e-3", "1_000", "7u32", "2.5f32", "3f64", "0x1F",
          "12345678901234567890.5", "0.000001", "1.10", "100", "9">>
OpsArith == <<"+", "-", "*", "+", "-", "*", "/">>
OpsAll == <<"+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "==", "<", ">=", "!=", "&&", "||">>
Methods0 == <<"sin", "abs", "exp", "x", "cast::<f64>">>
Methods1 == <<"powf", "max", "y", "rem::<f64,f32>">>
Methods2 == <<"mul_add", "clamp", "x">>
Members == <<"re", "x", "y", "0">>

RECURSIVE Gen(_, _, _)
\* fl: "lin" sums and products only, "arith" adds division, methods and fields, "full" adds every operator,
\* "odd" has many constructs that the transformations need not support
Gen(h, d, fl) ==
   LET c == Pick(h, 100)
       h1 == Split(h, 1)
       h2 == Split(h, 2)
       s == IF fl = "odd" THEN 18 ELSE 0
       full == fl \in {"full", "odd"}
       leaf == IF Pick(h1, 100) < 55 THEN <<"v", PickSeq(h2, Names)>>
               ELSE IF Pick(h1, 100) < 62 /\ fl # "lin" THEN <<"v", PickSeq(h2, IF full THEN Paths \o Members0 ELSE Paths)>>
               ELSE IF full /\ Pick(h1, 100) > 96 THEN (CASE Pick(h2, 3) = 0 -> <<"s", "\"x + y\"">>
                                                         [] Pick(h2, 3) = 1 -> <<"b", TRUE>>
                                                         [] OTHER -> <<"b", FALSE>>)
               ELSE Num(PickSeq(h2, Lits))
   IN IF d = 0 THEN leaf
      ELSE CASE c < 12 -> leaf
             [] c < 24 -> <<"u", "-", Gen(h1, d - 1, fl)>>
             [] c < 36 -> <<"p", Gen(h1, d - 1, fl)>>
             [] c < 74 - s \/ fl = "lin" ->
                  <<"o", IF fl = "lin" THEN PickSeq(Split(h, 3), <<"+", "-", "*">>)
                         ELSE IF fl = "arith" THEN PickSeq(Split(h, 3), OpsArith)
                         ELSE PickSeq(Split(h, 3), OpsAll), Gen(h1, d - 1, fl), Gen(h2, d - 1, fl)>>
             [] c < 84 - s -> <<"m", PickSeq(Split(h, 3), Methods0), Gen(h1, d - 1, fl), <<>> >>
             [] c < 91 - s -> (IF Pick(Split(h, 4), 3) > 0
                                  THEN <<"m", PickSeq(Split(h, 3), Methods1), Gen(h1, d - 1, fl), <<Gen(h2, d - 1, fl)>> >>
                                  ELSE <<"m", PickSeq(Split(h, 3), Methods2), Gen(h1, d - 1, fl),
                                         <<Gen(h2, d - 1, fl), Gen(Split(h, 5), d - 1, fl)>> \o
                                         (IF Pick(Split(h, 6), 3) > 0 THEN <<>> ELSE <<Gen(Split(h, 7), d - 1, fl)>>)>>)
             [] c < 96 - s -> LET base == Gen(h1, d - 1, fl) IN
                             <<"f", PickSeq(Split(h, 3), Members),
                               CASE Pick(Split(h, 4), 5) = 0 -> <<"v", PickSeq(h2, Names)>>
                                 [] Pick(Split(h, 4), 5) = 1 -> <<"f", PickSeq(Split(h, 8), Members), <<"v", PickSeq(h2, Names)>> >>
                                 [] base[1] \in {"v", "f", "m", "c", "i"} -> base
                                 [] OTHER -> <<"p", base>> >>
             [] full /\ c < 98 - s -> <<"u", "!", Gen(h1, d - 1, fl)>>
             [] full /\ c < 99 - (s \div 2) -> <<"c", <<"v", PickSeq(Split(h, 3), <<"f", "g", "g::f">>)>>,
                                           IF Pick(Split(h, 4), 3) = 0 THEN <<Gen(h1, d - 1, fl), Gen(h2, d - 1, fl)>> ELSE <<Gen(h1, d - 1, fl)>> >>
             [] full -> (CASE Pick(Split(h, 3), 4) = 0 -> <<"as", PickSeq(Split(h, 4), <<"f64", "f32", "i32">>), Gen(h1, d - 1, fl)>>
                                  [] Pick(Split(h, 3), 4) = 1 -> <<"i", Gen(h1, d - 1, fl), Gen(h2, d - 1, fl)>>
                                  [] Pick(Split(h, 3), 4) = 2 -> <<"r", Gen(h1, d - 1, fl)>>
                                  [] OTHER -> <<"t", <<Gen(h1, d - 1, fl), Gen(h2, d - 1, fl)>> >>)
             [] OTHER -> leaf
===============================================================================
