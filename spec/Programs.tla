-------------------------------- MODULE Programs --------------------------------
(***************************************************************************)
(* The files that are translated and the arguments they are called with.   *)
(*                                                                         *)
(* g is what an expression may use: g.w the width, g.mode "c" or "simd",   *)
(* g.fns the functions it may call, g.const whether it is a constant. sc   *)
(* is the scope: <<name, type, mutable>>. anch: the context fixes the type *)
(* of an unsuffixed literal.                                               *)
(***************************************************************************)
EXTENDS Program, TLC
CONSTANTS Seed, Count, Chunk
H(k) == ZMix(ZMix(Seed, 7919), k)

F(g) == IF g.w = 32 THEN "f32" ELSE "f64"
O(g) == IF g.w = 32 THEN "f64" ELSE "f32"
U(g) == IF g.w = 32 THEN "u32" ELSE "u64"
I(g) == IF g.w = 32 THEN "i32" ELSE "i64"
Written(h, t, g) == IF Pick(h, 3) = 0 THEN t ELSE CASE t = F(g) -> "fty" [] t = U(g) -> "uty" [] t = I(g) -> "ity" [] OTHER -> t
\* more names of types
MoreAliases == "type Num = fty; type Word = uty; type Flag = bool; type Yes = Flag; type Count = usize; type Single = f32; type Twice = Single; type Long = f64; type Longer = Long; "
CWritten(h, t, g) == CASE Pick(Split(h, 77), 3) # 0 -> Written(h, t, g)
                       [] t = "bool" -> PickSeq(Split(h, 78), <<"Flag", "Yes">>)
                       [] t = "f32" -> PickSeq(Split(h, 78), <<"Single", "Twice">> \o (IF g.w = 32 THEN <<"Num">> ELSE <<>>))
                       [] t = "f64" -> PickSeq(Split(h, 78), <<"Long", "Longer">> \o (IF g.w = 64 THEN <<"Num">> ELSE <<>>))
                       [] t = U(g) -> "Word"
                       [] t = "usize" -> "Count"
                       [] OTHER -> Written(h, t, g)
TypeMenu(g) == <<F(g), F(g), F(g), F(g), F(g), U(g), U(g), I(g), I(g), "bool", "bool", O(g), "u32", "u64", "i32", "i64", "usize">>
AnyType(h, g) == PickSeq(h, TypeMenu(g))

FloatTexts == <<"0.0", "1.0", "2.5", "0.1", "1e-3", "3.25", "1e10", "0.5", "100.0", "0.333333333333333333", "1.5e+2", "7.0", "2.0", "1_000.5", "16777217.0", "1e-40", "0.7", "3.3">>
IntTexts == <<"0", "1", "2", "3", "7", "10", "0x1F", "0b101", "255", "1_000", "0o17", "31", "12", "65535">>
WideTexts(t) == CASE t = "u32" -> <<"4294967295", "0x80000000", "2147483648", "0xff00_ff00">>
                  [] t = "i32" -> <<"2147483647", "1000000007", "0x7f00ff0f">>
                  [] t = "i64" -> <<"9223372036854775807", "4294967296", "0x7ff0000000000000", "3000000000">>
                  [] OTHER -> <<"18446744073709551615", "0xfff0_0000_0000_0000", "4294967296", "3000000000", "0x9E3779B97F4A7C15">>
FloatLit(h, t, anch, g) ==
   LET x == IF Pick(Split(h, 1), 4) = 0 THEN ZShow(ZRandBits(Split(h, 2), 1 + Pick(Split(h, 3), 60)), 1 + Pick(Split(h, 4), 18)) ELSE PickSeq(Split(h, 2), FloatTexts)
       bare == anch /\ t = F(g) /\ Pick(Split(h, 5), 4) > 0
       whole == PickSeq(Split(h, 6), <<"1", "3", "20", "1e3">>)
   IN IF bare THEN <<"lit", x, t>>
      ELSE IF Pick(Split(h, 7), 8) = 0 THEN <<"lit", whole \o t, t>>
      ELSE <<"lit", x \o (IF Pick(Split(h, 8), 3) = 0 THEN "_" ELSE "") \o t, t>>
\* other ways to write a constant number
FloatConst(h, t, g) ==
   LET c == Pick(h, 7) h1 == Split(h, 1) b == Bits(t) IN
   CASE c \in {0, 6} -> <<"path", PickSeq(h1, <<"NAN", "INFINITY", "INFINITY", "MIN_POSITIVE">>), t, CWritten(Split(h, 3), t, g)>>
     [] c < 3 -> <<"bits", t, <<"lit", ZMod(CASE Pick(Split(h, 2), 5) = 0 -> ZRandBits(h1, 64)
                                              [] Pick(Split(h, 2), 5) = 1 -> PickSeq(h1, <<"0", "1", InfBits(b), SignBit(b), ZAdd(InfBits(b), SignBit(b)), QNaN(b)>>)
                                              [] Pick(Split(h, 2), 5) \in {2, 3} -> IF b = 32 THEN Nearest(ZAdd(ZMul(1000, ZPow2(14)), ZRandBits(h1, 18)), ZPow2(14), b)   \* all digits count
                                                   ELSE Nearest(ZRandBits(h1, 53), ZPow2(52), b)
                                              [] OTHER -> Nearest(ZRandBits(h1, 24), ZPow2(12), b), ZPow2(b)) \o (IF b = 32 THEN "u32" ELSE "u64"), IF b = 32 THEN "u32" ELSE "u64">>, CWritten(Split(h, 3), t, g)>>
     [] c = 3 -> <<"cast", CWritten(h1, t, g), t, <<"par", <<"un", "-", <<"lit", PickSeq(Split(h, 2), FloatTexts), t>>>>>>>>
     [] OTHER -> <<"cast", CWritten(h1, t, g), t, <<"lit", PickSeq(Split(h, 2), FloatTexts), t>>>>
IntLit(h, t, anch, g) ==
   LET x == IF Pick(Split(h, 1), 5) = 0 THEN PickSeq(Split(h, 2), WideTexts(t)) ELSE PickSeq(Split(h, 2), IntTexts)
   IN IF anch /\ Pick(Split(h, 5), 3) > 0 THEN <<"lit", x, t>> ELSE <<"lit", x \o (IF Pick(Split(h, 8), 2) = 0 THEN "_" ELSE "") \o t, t>>
Lit(h, t, anch, g) == CASE FloatT(t) -> IF Pick(Split(h, 9), 4) = 0 THEN FloatConst(Split(h, 10), t, g) ELSE FloatLit(h, t, anch, g)
                        [] t = "bool" -> <<"lit", PickSeq(h, <<"true", "false">>), t>>
                        [] OTHER -> IntLit(h, t, anch, g)
Push(sc, n, t, m) == Append(SelectSeq(sc, LAMBDA v : v[1] # n), <<n, t, m>>)
Vars(sc, t) == SelectSeq(sc, LAMBDA v : v[2] = t)
\* a name of the type; else one of another type, converted or compared; else a literal
Leaf(h, t, anch, g, sc) ==
   LET v == TLCEval(Vars(sc, t))
       o == TLCEval(SelectSeq(sc, LAMBDA x : x[2] # t /\ (x[2] # "bool" \/ ~FloatT(t))))
       z == PickSeq(Split(h, 1), IF v # <<>> THEN v ELSE IF o # <<>> THEN o ELSE <<<<"", "f32", FALSE>>>>)
   IN IF v # <<>> /\ Pick(h, 8) > 0 THEN <<"var", z[1]>>
      ELSE IF v = <<>> /\ o # <<>> /\ Pick(h, 6) > 1
      THEN IF t = "bool" THEN <<"bin", PickSeq(Split(h, 3), <<"<", "<=", "==", "!=", ">", ">=">>), <<"var", z[1]>>, Lit(Split(h, 4), z[2], TRUE, g)>>
           ELSE <<"cast", CWritten(Split(h, 3), t, g), t, <<"var", z[1]>>>>
      ELSE Lit(Split(h, 2), t, anch, g)
Names == <<"x", "y", "z", "t", "u", "k", "i", "a", "b", "x", "y", "t", "x", "a", "b", "t", "log", "round", "double", "int", "y1", "f", "auto", "long", "exp", "fabs", "signed", "sqrt", "linux", "unix", "ds_bits", "fma", "char", "sinf", "y_1", "x_1", "signed", "short">>

\* literals without suffixes where the type is written next to them: a value for "let x: t" or "const X: t"
SmallInts == <<"0", "1", "2", "3", "5", "10", "0x1F", "255">>
LitExpr(h, t) ==
   LET L(x) == <<"lit", x, t>> c == Pick(h, 6) x == PickSeq(Split(h, 1), SmallInts) y == PickSeq(Split(h, 2), SmallInts) IN
   IF FloatT(t) THEN
      LET u == L(PickSeq(Split(h, 1), FloatTexts)) v == L(PickSeq(Split(h, 2), FloatTexts)) IN
      CASE c = 0 -> u [] c = 1 -> <<"un", "-", u>> [] OTHER -> <<"bin", PickSeq(Split(h, 3), <<"+", "-", "*", "/">>), u, v>>
   ELSE LET s == <<"bin", "<<", L(PickSeq(Split(h, 1), <<"1", "3", "0x1F">>)), <<"lit", PickSeq(Split(h, 2), IF Bits(t) = 32 THEN <<"0", "5", "23", "26">> ELSE <<"31", "40", "52", "58">>), "u32">>>> IN
      CASE c = 0 -> L(PickSeq(Split(h, 1), WideTexts(t)))
        [] c = 1 -> s
        [] c = 2 -> <<"bin", "-", <<"par", s>>, L("1")>>
        [] c = 3 -> <<"un", IF Signed(t) THEN "-" ELSE "!", L(y)>>
        [] OTHER -> <<"bin", PickSeq(Split(h, 3), <<"+", "*", "|", "^">>), L(x), L(y)>>

RECURSIVE Gen(_, _, _, _, _, _), GenBlock(_, _, _, _, _, _), GenStmts(_, _, _, _, _, _), GenArgs(_, _, _, _, _, _)
\* arguments of the types of a sequence of parameters
GenArgs(h, ps, k, d, g, sc) == IF k > Len(ps) THEN <<>> ELSE <<Gen(Split(h, k), ps[k][3], d, TRUE, g, sc)>> \o GenArgs(h, ps, k + 1, d, g, sc)
IfE(h, t, d, anch, g, sc) ==
   <<"if", Gen(Split(h, 1), "bool", d - 1, FALSE, g, sc), GenBlock(Split(h, 2), t, d - 1, anch, g, sc), GenBlock(Split(h, 3), t, d - 1, anch, g, sc)>>
CallE(h, t, d, anch, g, sc) ==
   LET fs == SelectSeq(g.fns, LAMBDA f : f[3] = t) IN
   IF fs = <<>> THEN IfE(h, t, d, anch, g, sc)
   ELSE LET f == PickSeq(Split(h, 1), fs) IN <<"call", f[1], GenArgs(Split(h, 2), f[2], 1, d - 1, g, sc)>>
FloatMethods == <<"abs", "round", "floor", "ceil", "trunc", "sqrt", "recip", "min", "max", "mul_add", "mul_add", "copysign", "abs", "round", "max", "min">>
Arg(h, t, d, g, sc) == Gen(h, t, d - 1, TRUE, g, sc)
Gen(h, t, d, anch, g, sc) ==
   LET c == Pick(h, 100) h1 == Split(h, 1) h2 == Split(h, 2) h3 == Split(h, 3) h4 == Split(h, 4)
       E(x, u) == Gen(x, u, d - 1, FALSE, g, sc)      \* the type is its own
       A(x, u) == Gen(x, u, d - 1, TRUE, g, sc)       \* the type comes from the context
       N(x, u) == Gen(x, u, d - 1, anch, g, sc)
       cond == ~g.const
   IN
   IF d = 0 \/ c < 8 THEN Leaf(h1, t, anch, g, sc)
   ELSE IF c < 13 THEN <<"par", N(h1, t)>>
   ELSE IF c < 21 THEN IfE(h1, t, d, anch, g, sc)
   ELSE IF c < 28 /\ cond THEN CallE(h1, t, d, anch, g, sc)
   ELSE IF c < 31 /\ cond THEN <<"blk", GenBlock(h1, t, d - 1, anch, g, sc)>>
   ELSE IF FloatT(t) THEN
      (CASE c < 66 \/ (t # F(g) /\ c < 85) -> <<"bin", PickSeq(h3, <<"+", "-", "*", "/", "+", "-", "*">>), E(h1, t), A(h2, t)>>
         [] c < 72 -> <<"un", "-", N(h1, t)>>
         [] c < 90 /\ cond /\ t = F(g) ->
              LET m == PickSeq(h3, FloatMethods) IN
              <<"met", m, E(h1, t), CASE m = "mul_add" -> <<A(h2, t), A(h4, t)>> [] m \in {"min", "max", "copysign"} -> <<A(h2, t)>> [] OTHER -> <<>>>>
         [] c < 93 /\ cond /\ t = F(g) -> <<"from", A(h1, U(g))>>
         [] OTHER -> LET s == PickSeq(h3, <<U(g), I(g), O(g), "u32", "i32", "i64", "u64">>) IN <<"cast", CWritten(h4, t, g), t, E(h1, s)>>)
   ELSE IF t = "bool" THEN
      (CASE c < 70 -> LET s == PickSeq(h3, <<F(g), F(g), F(g), F(g), U(g), I(g), O(g), "u32", "i64">>) IN
                      <<"bin", PickSeq(h4, <<"<", "<=", "==", "!=", ">", ">=">>), E(h1, s), A(h2, s)>>
         [] c < 82 -> <<"bin", PickSeq(h3, <<"&&", "||">>), E(h1, t), E(h2, t)>>
         [] c < 87 -> <<"un", "!", IF Pick(h3, 2) = 0 THEN Leaf(h1, t, FALSE, g, sc) ELSE E(h1, t)>>
         [] c < 92 -> <<"un", "!", <<"bin", PickSeq(h3, <<"&", "|", "^", "^", "==", "&&">>), E(h1, t), E(h2, t)>> >>
         [] OTHER -> <<"bin", PickSeq(h3, <<"&", "|", "^", "==", "!=">>), E(h1, t), E(h2, t)>>)
   ELSE
      (CASE c < 44 -> <<"bin", PickSeq(h3, <<"+", "-", "*", "/", "%">>), E(h1, t), A(h2, t)>>
         [] c < 60 -> <<"bin", PickSeq(h3, <<"&", "|", "^", "&", "^", "|", "+", "-">>), E(h1, t), A(h2, t)>>
         [] c < 72 -> <<"bin", PickSeq(h3, <<"<<", ">>", ">>">>),
                        \* bits that the type has no room for must go
                        IF ~Signed(t) /\ Pick(Split(h, 5), 3) = 0
                        THEN LET wide == <<"lit", PickSeq(Split(h, 7), WideTexts(t)), t>>
                                 with == CASE Pick(Split(h, 8), 4) = 0 /\ t # "usize" /\ cond -> <<"met", "wrapping_mul", E(h1, t), <<wide>>>>
                                           [] Pick(Split(h, 8), 4) = 1 -> <<"if", E(Split(h, 9), "bool"), <<<<>>, E(h1, t)>>, <<<<>>, wide>>>>
                                           [] OTHER -> <<"bin", PickSeq(Split(h, 9), <<"|", "^", "&">>), E(h1, t), wide>>
                             IN IF Pick(Split(h, 12), 2) = 0 THEN with ELSE <<"bin", "<<", with, <<"lit", PickSeq(Split(h, 13), <<"1", "3", "7", "12">>), "u32">>>>
                        ELSE E(h1, t),
                        IF Pick(h4, 4) > 0 THEN <<"lit", PickSeq(h2, <<"1", "3", "7", "12", "20", "23", "31", "5">>) \o PickSeq(Split(h, 6), <<"", "u32", "_i32", "", "">>), "u32">>
                        ELSE E(h2, PickSeq(Split(h, 6), <<"u32", "i32", t>>))>>
         [] c < 76 /\ Signed(t) -> <<"un", "-", N(h1, t)>>
         [] c < 80 -> <<"un", "!", E(h1, t)>>
         [] c < 85 /\ cond /\ t = U(g) -> <<"met", "to_bits", E(h1, F(g)), <<>>>>
         [] c < 88 /\ cond /\ ~Signed(t) /\ t # "usize" -> <<"met", "wrapping_mul", E(h1, t), <<A(h2, t)>>>>
         [] OTHER -> LET s == PickSeq(h3, <<F(g), "bool", "u32", "i32", "i64", "u64", "usize", F(g), O(g)>>) IN <<"cast", CWritten(h4, t, g), t, E(h1, s)>>)
\* n statements; the scope after them is found again by ScopeAfter
Fresh(h, sc, g) == PickSeq(h, Names)
GenStmts(h, n, d, g, sc, local) ==
   IF n = 0 THEN <<>>
   ELSE LET c == Pick(h, 100) h1 == Split(h, 1) h2 == Split(h, 2) h3 == Split(h, 3)
            t == AnyType(Split(h, 5), g)
            muts == SelectSeq(local, LAMBDA v : v[3] /\ v[2] # "bool" /\ (\E j \in 1..Len(sc) : sc[j] = v))
            wild == Pick(Split(h, 12), 12) = 0       \* "_": the value is dropped
            name == IF wild THEN "_" ELSE Fresh(h2, sc, g)
            s == IF c < 14 /\ muts # <<>>
                 THEN LET v == PickSeq(h2, muts)
                          op == IF FloatT(v[2]) THEN PickSeq(h3, <<"", "+", "*", "-", "/">>)
                                ELSE PickSeq(h3, <<"", "^", "|", "&", "+", "-", "*", "/", "%", "<<", ">>", ">>">>)
                      IN <<"set", v[1], op,
                           IF op \in {"<<", ">>"} THEN (IF Pick(Split(h, 10), 4) > 0 THEN <<"lit", PickSeq(Split(h, 11), <<"1", "3", "7", "12", "20", "23", "31", "5">>), "u32">>
                                                       ELSE Gen(h1, PickSeq(Split(h, 11), <<"u32", "i32", v[2]>>), d, TRUE, g, sc))
                           ELSE Gen(h1, v[2], d, TRUE, g, sc)>>
                 ELSE LET typed == Pick(h3, 2) = 0 IN
                      <<"let", name, IF typed THEN CWritten(Split(h, 6), t, g) ELSE "", ~wild /\ Pick(Split(h, 7), 4) = 0,
                        IF wild /\ ~typed /\ Pick(Split(h, 8), 3) = 0 THEN <<"lit", PickSeq(h1, <<"0", "1", "17">>), "i32">>
                        ELSE IF typed /\ t # "bool" /\ Pick(Split(h, 8), 8) = 0 THEN LitExpr(h1, t) ELSE Gen(h1, t, d, typed, g, sc)>>
            sc2 == IF s[1] = "let" /\ ~wild THEN Push(sc, name, t, s[4]) ELSE sc
            local2 == IF s[1] = "let" /\ ~wild THEN Push(local, name, t, s[4]) ELSE local
            \* declared first, assigned later
            late == s[1] = "let" /\ ~wild /\ s[3] # "" /\ Pick(Split(h, 9), 6) = 0
            bare == SelectSeq(sc, LAMBDA v : v[1] # name)
            sc3 == Push(sc, name, t, FALSE)
            local3 == Push(local, name, t, FALSE)
            \* a constant of the block
            con == "K" \o ZI(Pick(Split(h, 14), 100000))
            sc4 == Push(sc, con, t, FALSE)
            local4 == Push(local, con, t, FALSE)
            \* a conditional or a block that changes variables
            inner(x, vs) == LET ss == TLCEval(GenStmts(Split(h, x), 1 + Pick(Split(h, x + 1), 2), d - 1, g, sc, vs)) IN [j \in 1..Len(ss) |-> ss[j][1]]
            test == Gen(Split(h, 24), "bool", 1, FALSE, g, sc)
            \* declared, and assigned by both branches
            value(x) == <<<<"set", name, "", Gen(Split(h, x), t, 1, TRUE, g, bare)>>>>
        IN IF d > 0 /\ muts # <<>> /\ Pick(Split(h, 15), 6) = 0
           THEN <<<<IF Pick(Split(h, 16), 5) = 0 THEN <<"do", inner(20, muts)>>
                    ELSE LET other == Pick(Split(h, 17), 2) = 0 IN <<"when", test, inner(20, muts), other, IF other THEN inner(22, muts) ELSE <<>>>>, sc>>>>
                \o GenStmts(Split(h, 4), n - 1, d, g, sc, local)
           ELSE IF late /\ Pick(Split(h, 18), 3) = 0
           THEN <<<<<<"dec", name, s[3]>>, bare>>, <<<<"when", Gen(Split(h, 24), "bool", 1, FALSE, g, bare), value(25), TRUE, value(26)>>, sc3>>>>
                \o GenStmts(Split(h, 4), n - 1, d, g, sc3, local3)
           ELSE IF Pick(Split(h, 13), 10) = 0 THEN <<<<<<"con", con, CWritten(Split(h, 6), t, g), Lit(h1, t, FALSE, g)>>, sc4>>>> \o GenStmts(Split(h, 4), n - 1, d, g, sc4, local4)
           ELSE IF late THEN <<<<<<"dec", name, s[3]>>, bare>>, <<<<"set", name, "", Gen(h1, t, d, TRUE, g, bare)>>, sc3>>>> \o GenStmts(Split(h, 4), n - 1, d, g, sc3, local3)
           ELSE <<<<s, sc2>>>> \o GenStmts(Split(h, 4), n - 1, d, g, sc2, local2)
GenBlock(h, t, d, anch, g, sc) ==
   LET n == IF g.const \/ d <= 0 THEN 0 ELSE CASE Pick(h, 8) = 0 -> 1 [] Pick(h, 16) = 1 -> 2 [] OTHER -> 0
       ss == TLCEval(GenStmts(Split(h, 1), n, 1, g, sc, <<>>))
       sc2 == IF n = 0 THEN sc ELSE ss[Len(ss)][2]
   IN <<[j \in 1..Len(ss) |-> ss[j][1]], Gen(Split(h, 2), t, d, anch, g, sc2)>>
GenBody(h, t, g, sc) ==
   LET ss == TLCEval(GenStmts(Split(h, 1), Pick(Split(h, 3), 5), 2, g, sc, SelectSeq(sc, LAMBDA v : v[3])))
       sc2 == IF ss = <<>> THEN sc ELSE ss[Len(ss)][2]
   IN <<[j \in 1..Len(ss) |-> ss[j][1]], Gen(Split(h, 2), t, 2 + Pick(Split(h, 4), 2), TRUE, g, sc2)>>

RECURSIVE GenConsts(_, _, _, _, _), GenFns(_, _, _, _, _, _)
\* a constant without a value would not compile
GenConsts(h, k, n, g, acc) ==
   IF n = 0 THEN acc
   ELSE LET t == AnyType(Split(h, 1), g)
            name == "C" \o ZI(k) \o "_" \o ZI(Len(acc) + 1)
            sc == [j \in 1..Len(acc) |-> <<acc[j][1], acc[j][3], FALSE>>]
            e == TLCEval(IF t # "bool" /\ Pick(Split(h, 7), 6) = 0 THEN LitExpr(Split(h, 2), t) ELSE Gen(Split(h, 2), t, Pick(Split(h, 3), 3), TRUE, g, sc))
            P == [w |-> g.w, consts |-> acc, fns |-> <<>>, env |-> <<>>]
            v == TLCEval(Val(P, e, ConstEnv(P, 1, <<>>), TRUE))
            keep == v # Undef
            e2 == IF keep THEN e ELSE Lit(Split(h, 5), t, FALSE, g)
        IN GenConsts(Split(h, 4), k, n - 1, g, Append(acc, <<name, CWritten(Split(h, 6), t, g), t, e2>>))
Params(h, g) == LET n == 1 + Pick(Split(h, 1), 3)
                    names == PickSeq(Split(h, 2), <<<<"x", "y", "z">>, <<"a", "b", "c">>, <<"x", "t", "k">>, <<"arg", "log", "round">>, <<"double", "x", "y">>>>)
                    ts == [j \in 1..n |-> IF Pick(Split(h, 10 + j), 3) > 0 THEN F(g) ELSE AnyType(Split(h, 20 + j), g)]
                IN [j \in 1..n |-> <<names[j], CWritten(Split(h, 30 + j), ts[j], g), ts[j]>> \o (IF Pick(Split(h, 40 + j), 6) = 0 THEN <<TRUE>> ELSE <<>>)]
GenFns(h, k, n, g, consts, acc) ==
   IF n = 0 THEN acc
   ELSE LET ps == TLCEval(Params(Split(h, 1), g))
            t == IF Pick(Split(h, 2), 2) = 0 THEN F(g) ELSE AnyType(Split(h, 3), g)
            g2 == [g EXCEPT !.fns = acc]
            sc == consts \o [j \in 1..Len(ps) |-> <<ps[j][1], ps[j][3], Len(ps[j]) > 3>>]
            f == <<"f" \o ZI(k) \o "_" \o ZI(Len(acc) + 1), ps, t, CWritten(Split(h, 4), t, g), TLCEval(GenBody(Split(h, 5), t, g2, sc))>> \o (IF Pick(Split(h, 7), 5) = 0 THEN <<TRUE>> ELSE <<>>)
        IN GenFns(Split(h, 6), k, n - 1, g, consts, Append(acc, f))
\* a program without the shared constants' values
ProgramOf(k) ==
   LET h == H(k)
       g == [w |-> IF k % 2 = 0 THEN 32 ELSE 64, fns |-> <<>>, const |-> FALSE]
       cs == TLCEval(GenConsts(Split(h, 1), k, Pick(Split(h, 2), 4), [g EXCEPT !.const = TRUE], <<>>))
       sc == [j \in 1..Len(cs) |-> <<cs[j][1], cs[j][3], FALSE>>]
       fs == TLCEval(GenFns(Split(h, 3), k, 1 + Pick(Split(h, 4), 3), g, sc, <<>>))
       P == [w |-> g.w, consts |-> cs, fns |-> fs, env |-> <<>>]
   IN [P EXCEPT !.env = TLCEval(ConstEnv(P, 1, <<>>))]
\* the order of the functions in the file does not matter
Rotate(s, n) == [j \in 1..Len(s) |-> s[((j - 1 + n) % Len(s)) + 1]]
Source(P, k) == Aliases(P.w) \o MoreAliases \o RConsts(P.consts) \o RFns(Rotate(P.fns, Pick(Split(H(k), 9), 3)), 1)
Prefix(k) == PickSeq(Split(H(k), 8), <<"", "p_", "vec">>)

(***************************************************************************)
(* Arguments.                                                              *)
(***************************************************************************)
FloatArgs(b) == <<"0", SignBit(b), OfInt(1, b), OfInt(-1, b), NearestDec("25", 1, b), NearestDec("-5", 1, b), OfInt(3, b), NearestDec("-75", 2, b), NearestDec("123", 2, b),
                  OfInt(100, b), "1", InfBits(b), Inf(TRUE, b), "nan", ZSub(InfBits(b), 1), OfInt(7, b), NearestDec("1", -30, b), NearestDec("5", 1, b), NearestDec("-15", 1, b), NearestDec("3", -9, b), NearestDec("1", -19, b), NearestDec("-2", -9, b)>>
ArgOf(h, t) ==
   LET c == Pick(h, 10) h1 == Split(h, 1) b == Bits(t) IN
   CASE FloatT(t) -> <<t, CASE c < 5 -> PickSeq(h1, FloatArgs(b))
                            [] c < 9 -> Nearest(IF Pick(Split(h, 2), 2) = 0 THEN ZRandBits(h1, 24) ELSE ZNeg(ZRandBits(h1, 24)), ZPow2(2 + Pick(Split(h, 3), 25)), b)
                            [] OTHER -> FloatV(ZMod(ZRandBits(h1, 64), ZPow2(b)), t)[2]>>
     [] t = "bool" -> BoolV(c < 5)
     [] OTHER -> <<t, CASE c < 6 -> ZI(Pick(h1, 40) - (IF Signed(t) THEN 15 ELSE 0))
                        [] c = 6 -> MaxOf(t)
                        [] c = 7 -> MinOf(t)
                        [] OTHER -> Wrap(ZRandBits(h1, 64), t)[2]>>
Tries == 14
Calls == 6
\* calls that have a value: <<function, arguments, value fused, value unfused>>
RECURSIVE CallsOf(_, _, _, _, _)
CallsOf(P, k, fn, n, acc) ==
   IF n > Tries \/ Len(acc) >= Calls THEN acc
   ELSE LET f == P.fns[fn]
            a == TLCEval([j \in 1..Len(f[2]) |-> ArgOf(Split(Split(H(k), 100 * fn + n), j), f[2][j][3])])
            r == TLCEval(CallVal(P, f[1], a, TRUE))
            u == TLCEval(IF r = Undef THEN r ELSE CallVal(P, f[1], a, FALSE))
        IN CallsOf(P, k, fn, n + 1, IF r = Undef \/ u = Undef THEN acc ELSE Append(acc, <<fn, a>>))
RECURSIVE AllCalls(_, _, _)
AllCalls(P, k, fn) == IF fn > Len(P.fns) THEN <<>> ELSE CallsOf(P, k, fn, 1, <<>>) \o AllCalls(P, k, fn + 1)

\* a value as an argument in C (with the macros of the driver) and in Rust
BitsOf(v) == IF v[2] = "nan" THEN QNaN(Bits(v[1])) ELSE v[2]
CArg(v) == CASE FloatT(v[1]) -> "a_" \o v[1] \o "(" \o BitsOf(v) \o "ull)"
             [] Signed(v[1]) -> "(" \o (IF v[1] = "i32" THEN "int" ELSE "long long") \o ")" \o ZMod(v[2], ZPow2(64)) \o "ull"
             [] OTHER -> v[2] \o "ull"
RArg(v) == CASE FloatT(v[1]) -> v[1] \o "::from_bits(" \o BitsOf(v) \o ")"
             [] v[1] = "bool" -> (IF v[2] = "1" THEN "true" ELSE "false")
             [] OTHER -> "(" \o v[2] \o "_" \o v[1] \o ")"
RECURSIVE CArgs(_, _), RArgs2(_, _), CCalls(_, _, _), RCalls(_, _)
CArgs(s, j) == IF j > Len(s) THEN "" ELSE (IF j > 1 THEN ", " ELSE "") \o CArg(s[j]) \o CArgs(s, j + 1)
RArgs2(s, j) == IF j > Len(s) THEN "" ELSE (IF j > 1 THEN ", " ELSE "") \o RArg(s[j]) \o RArgs2(s, j + 1)
Show(t) == "r_" \o t
CCalls(P, pre, cs) == IF cs = <<>> THEN "" ELSE LET f == P.fns[Head(cs)[1]] IN
                      Show(f[3]) \o "(" \o pre \o f[1] \o "(" \o CArgs(Head(cs)[2], 1) \o ")); " \o CCalls(P, pre, Tail(cs))
RCalls(P, cs) == IF cs = <<>> THEN "" ELSE LET f == P.fns[Head(cs)[1]] IN
                 Show(f[3]) \o "(" \o f[1] \o "(" \o RArgs2(Head(cs)[2], 1) \o ")); " \o RCalls(P, Tail(cs))
Mod(a, b) == a % b
===============================================================================
