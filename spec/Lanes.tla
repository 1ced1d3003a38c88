---------------------------------- MODULE Lanes ----------------------------------
(***************************************************************************)
(* The files that are translated for portable SIMD, and the vectors their  *)
(* functions are applied to (S01). A function applied to vectors is the    *)
(* scalar function of Program.tla applied to every lane.                   *)
(*                                                                         *)
(* The translated subset: functions of numbers of the file's width whose   *)
(* first parameter is a float; truth values only decide. Integers are      *)
(* literals of the type they are combined with, or bare to the right of an *)
(* operator; shift distances are literals of any type.                     *)
(***************************************************************************)
EXTENDS Programs
LAliases(w) == Aliases(w) \o "type Deep = Num; type Num = fty; type Word = uty; type Whole = ity; type Plain = " \o (IF w = 32 THEN "f32" ELSE "f64") \o "; "
LWritten(h, t, g) == CASE Pick(Split(h, 77), 3) # 0 -> Written(h, t, g)
                       [] t = F(g) -> PickSeq(Split(h, 78), <<"Deep", "Num", "Plain">>)
                       [] t = U(g) -> "Word"
                       [] t = I(g) -> "Whole"
                       [] OTHER -> Written(h, t, g)

LFloat(h, anch, g) ==
   LET t == F(g) c == Pick(h, 9) h1 == Split(h, 1) h2 == Split(h, 2) b == g.w
       x == IF Pick(Split(h, 3), 4) = 0 THEN ZShow(ZRandBits(h1, 1 + Pick(h2, 60)), 1 + Pick(Split(h, 4), 18)) ELSE PickSeq(h1, FloatTexts)
   IN CASE c < 4 /\ anch -> <<"lit", x, t>>
        [] c < 6 -> <<"lit", x \o (IF Pick(Split(h, 5), 2) = 0 THEN "_" ELSE "") \o t, t>>
        [] c = 6 -> <<"cast", LWritten(Split(h, 6), t, g), t, IF Pick(Split(h, 7), 3) = 0 THEN <<"par", <<"un", "-", <<"lit", x, t>>>>>> ELSE <<"lit", x, t>>>>
        [] c = 7 -> <<"path", PickSeq(h1, <<"NAN", "INFINITY", "MIN_POSITIVE">>), t, LWritten(Split(h, 7), t, g)>>
        [] OTHER -> <<"bits", t, <<"lit", Nearest(ZRandBits(h1, 24), ZPow2(12), b) \o (IF b = 32 THEN "u32" ELSE "u64"), U(g)>>, LWritten(Split(h, 7), t, g)>>
LInt(h, t, bare, g) ==
   LET x == IF Pick(Split(h, 1), 5) = 0 THEN PickSeq(Split(h, 2), WideTexts(t)) ELSE PickSeq(Split(h, 2), IntTexts)
   IN IF bare /\ Pick(h, 3) > 0 THEN <<"lit", x, t>> ELSE <<"lit", x \o (IF Pick(Split(h, 3), 2) = 0 THEN "_" ELSE "") \o t, t>>
LLeaf(h, t, anch, bare, g, sc) ==
   LET v == TLCEval(Vars(sc, t)) IN
   IF v # <<>> /\ (Pick(h, 5) > 0 \/ t = "bool") THEN <<"var", PickSeq(Split(h, 1), v)[1]>>
   ELSE IF FloatT(t) THEN LFloat(Split(h, 2), anch, g)
   ELSE IF t = "bool" THEN <<"bin", PickSeq(Split(h, 3), <<"<", "<=", "==", "!=", ">", ">=">>), <<"var", PickSeq(Split(h, 4), Vars(sc, F(g)))[1]>>, LFloat(Split(h, 5), TRUE, g)>>
   ELSE LInt(Split(h, 2), t, bare, g)

\* bare: the expression stands to the right of an operator
RECURSIVE L(_, _, _, _, _, _, _), LBlock(_, _, _, _, _, _), LStmts(_, _, _, _, _, _), LArgs(_, _, _, _, _, _)
LArgs(h, ps, k, d, g, sc) == IF k > Len(ps) THEN <<>> ELSE <<L(Split(h, k), ps[k][3], d, TRUE, FALSE, g, sc)>> \o LArgs(h, ps, k + 1, d, g, sc)
L(h, t, d, anch, bare, g, sc) ==
   LET c == Pick(h, 100) h1 == Split(h, 1) h2 == Split(h, 2) h3 == Split(h, 3) h4 == Split(h, 4)
       E(x, u) == L(x, u, d - 1, FALSE, FALSE, g, sc)
       A(x, u) == L(x, u, d - 1, TRUE, FALSE, g, sc)
       R(x, u) == L(x, u, d - 1, TRUE, TRUE, g, sc)
       fs == SelectSeq(g.fns, LAMBDA f : f[3] = t)
       f == PickSeq(h3, IF fs = <<>> THEN <<<<"", <<>>>>>> ELSE fs)
   IN
   IF d <= 0 \/ c < 8 THEN LLeaf(h1, t, anch, bare, g, sc)
   ELSE IF c < 13 THEN <<"par", L(h1, t, d - 1, anch, FALSE, g, sc)>>
   ELSE IF c < 26 /\ t # "bool" THEN <<"if", E(h1, "bool"), LBlock(h2, t, d - 1, anch, g, sc), LBlock(h3, t, d - 1, anch, g, sc)>>
   ELSE IF c < 34 /\ fs # <<>> THEN <<"call", f[1], LArgs(h1, f[2], 1, d - 1, g, sc)>>
   ELSE IF c < 36 THEN <<"blk", LBlock(h1, t, d - 1, anch, g, sc)>>
   ELSE IF FloatT(t) THEN
      (CASE c < 66 -> <<"bin", PickSeq(h3, <<"+", "-", "*", "/", "+", "-", "*">>), E(h1, t), A(h2, t)>>
         [] c < 73 -> <<"un", "-", L(h1, t, d - 1, anch, FALSE, g, sc)>>
         [] c < 88 -> LET m == PickSeq(h3, FloatMethods) IN
              <<"met", m, E(h1, t), CASE m = "mul_add" -> <<A(h2, t), A(h4, t)>> [] m \in {"min", "max", "copysign"} -> <<A(h2, t)>> [] OTHER -> <<>>>>
         [] c < 93 -> <<"from", A(h1, U(g))>>
         [] OTHER -> <<"cast", LWritten(h4, t, g), t, E(h1, PickSeq(h3, <<U(g), I(g), I(g)>>))>>)
   ELSE IF t = "bool" THEN
      (CASE c < 70 -> LET s == PickSeq(h3, <<F(g), F(g), F(g), U(g), I(g)>>) IN <<"bin", PickSeq(h4, <<"<", "<=", "==", "!=", ">", ">=">>), E(h1, s), R(h2, s)>>
         [] c < 88 -> <<"bin", PickSeq(h3, <<"&&", "||", "&&", "||", "&", "|", "^">>), E(h1, t), E(h2, t)>>
         [] OTHER -> <<"un", "!", E(h1, t)>>)
   ELSE
      (CASE c < 50 -> <<"bin", PickSeq(h3, <<"+", "-", "*">>), E(h1, t), R(h2, t)>>
         [] c < 66 -> <<"bin", PickSeq(h3, <<"&", "|", "^">>), E(h1, t), R(h2, t)>>
         [] c < 78 -> <<"bin", PickSeq(h3, <<"<<", ">>", ">>">>), E(h1, t),
                        <<"lit", PickSeq(h2, <<"1", "3", "7", "12", "20", "23", "31", "5">>) \o PickSeq(h4, <<"", "", t, "_" \o t, "u32", "i32", "_u64", "_i64", "usize">>), t>>>>
         [] c < 81 /\ Signed(t) -> <<"un", "-", E(h1, t)>>
         [] c < 84 -> <<"un", "!", E(h1, t)>>
         [] c < 91 /\ ~Signed(t) -> <<"met", "to_bits", E(h1, F(g)), <<>>>>
         [] OTHER -> <<"cast", LWritten(h4, t, g), t, E(h1, PickSeq(h3, <<F(g), F(g), IF Signed(t) THEN U(g) ELSE I(g)>>))>>)
LTypes(g) == <<F(g), F(g), F(g), F(g), U(g), I(g), "bool">>
\* the value of a typed variable or constant; a truth value has no type to write
LStmts(h, n, d, g, sc, local) ==
   IF n = 0 THEN <<>>
   ELSE LET c == Pick(h, 100) h1 == Split(h, 1) h2 == Split(h, 2) h3 == Split(h, 3)
            t == PickSeq(Split(h, 5), LTypes(g))
            muts == SelectSeq(local, LAMBDA v : v[3] /\ v[2] # "bool" /\ (\E j \in 1..Len(sc) : sc[j] = v))
            wild == Pick(Split(h, 12), 12) = 0       \* "_": the value is dropped
            name == IF wild THEN "_" ELSE Fresh(h2, sc, g)
            s == IF c < 14 /\ muts # <<>>
                 THEN LET v == PickSeq(h2, muts)
                          op == IF FloatT(v[2]) THEN PickSeq(h3, <<"", "+", "*", "-", "/">>) ELSE PickSeq(h3, <<"", "^", "|", "&", "+", "-", "<<", ">>">>)
                      IN <<"set", v[1], op, IF op \in {"<<", ">>"} THEN <<"lit", PickSeq(Split(h, 10), <<"1", "3", "7", "12", "20", "23", "31", "5">>), v[2]>>
                                            ELSE L(h1, v[2], d, TRUE, FALSE, g, sc)>>
                 ELSE LET typed == t # "bool" /\ Pick(h3, 2) = 0 IN
                      <<"let", name, IF typed THEN LWritten(Split(h, 6), t, g) ELSE "", ~wild /\ Pick(Split(h, 7), 4) = 0,
                        IF wild /\ ~typed /\ Pick(Split(h, 8), 3) = 0 THEN <<"lit", PickSeq(h1, <<"0", "1", "17">>), "i32">> ELSE L(h1, t, d, typed, FALSE, g, sc)>>
            isLet == s[1] = "let"
            late == isLet /\ ~wild /\ s[3] # "" /\ Pick(Split(h, 9), 6) = 0
            sc2 == IF isLet /\ ~wild THEN Push(sc, name, t, s[4]) ELSE sc
            local2 == IF isLet /\ ~wild THEN Push(local, name, t, s[4]) ELSE local
            bare == SelectSeq(sc, LAMBDA v : v[1] # name)
            sc3 == Push(sc, name, t, FALSE)
            local3 == Push(local, name, t, FALSE)
            \* a constant of the block
            con == "K" \o ZI(Pick(Split(h, 14), 100000))
            sc4 == Push(sc, con, t, FALSE)
            cons == SelectSeq(local, LAMBDA v : Len(v) > 3 /\ v[2] = t)
            plain == IF FloatT(t) THEN LFloat(h1, TRUE, g) ELSE LInt(h1, t, FALSE, g)
            of == IF cons = <<>> \/ Pick(Split(h, 15), 4) = 0 THEN <<>> ELSE PickSeq(Split(h, 17), cons)
            conE == IF of = <<>> THEN plain ELSE <<"bin", PickSeq(Split(h, 16), IF FloatT(t) THEN <<"*", "+", "-">> ELSE <<"^", "|", "&">>), <<"var", of[1]>>, plain>>
            depth == IF of = <<>> THEN 0 ELSE of[4] + 1
            local4 == Append(local, <<con, t, FALSE, depth>>)
            conS == <<"con", con, LWritten(Split(h, 6), t, g), conE, depth>>
        IN IF t # "bool" /\ Pick(Split(h, 13), IF cons = <<>> THEN 8 ELSE 3) = 0
           THEN LET rest == TLCEval(LStmts(Split(h, 4), n - 1, d, g, sc4, local4)) IN
                \* known in all of its block, also before it is written
                IF rest # <<>> /\ Pick(Split(h, 18), 2) = 0
                THEN <<rest[1], <<conS, rest[1][2]>>>> \o Tail(rest)
                ELSE <<<<conS, sc4>>>> \o rest
           ELSE IF late /\ Vars(bare, F(g)) # <<>>
           THEN <<<<<<"dec", name, s[3]>>, bare>>, <<<<"set", name, "", L(h1, t, d, TRUE, FALSE, g, bare)>>, sc3>>>> \o LStmts(Split(h, 4), n - 1, d, g, sc3, local3)
           ELSE IF Vars(sc2, F(g)) = <<>> THEN LStmts(Split(h, 4), n - 1, d, g, sc, local)
           ELSE <<<<s, sc2>>>> \o LStmts(Split(h, 4), n - 1, d, g, sc2, local2)
After(ss, sc) == IF ss = <<>> THEN sc ELSE ss[Len(ss)][2]
LBlock(h, t, d, anch, g, sc) ==
   LET n == IF d <= 0 THEN 0 ELSE CASE Pick(h, 8) = 0 -> 1 [] Pick(h, 16) = 1 -> 2 [] OTHER -> 0
       ss == TLCEval(LStmts(Split(h, 1), n, 1, g, sc, <<>>))
   IN <<[j \in 1..Len(ss) |-> ss[j][1]], L(Split(h, 2), t, d, anch, FALSE, g, After(ss, sc))>>
LBody(h, t, g, sc) ==
   LET ss == TLCEval(LStmts(Split(h, 1), Pick(Split(h, 3), 5), 2, g, sc, SelectSeq(sc, LAMBDA v : v[3])))
   IN <<[j \in 1..Len(ss) |-> ss[j][1]], L(Split(h, 2), t, 2 + Pick(Split(h, 4), 2), TRUE, FALSE, g, After(ss, sc))>>
\* constants of literals and operators, and of constants before them
RECURSIVE LConsts(_, _, _, _, _), LFns(_, _, _, _, _, _)
LConsts(h, k, n, g, acc) ==
   IF n = 0 THEN acc
   ELSE LET t == PickSeq(Split(h, 1), <<F(g), F(g), U(g), I(g)>>)
            name == "C" \o ZI(k) \o "_" \o ZI(Len(acc) + 1)
            vs == SelectSeq(acc, LAMBDA c : c[3] = t)
            lit(x) == IF FloatT(t) THEN LFloat(x, TRUE, g) ELSE LInt(x, t, FALSE, g)
            leaf(x) == IF vs # <<>> /\ Pick(x, 2) = 0 THEN <<"var", PickSeq(Split(x, 1), vs)[1]>> ELSE lit(x)
            ops == IF FloatT(t) THEN <<"+", "-", "*", "/">> ELSE <<"&", "|", "^", "+", "-">>
            c == Pick(Split(h, 2), 5)
            e == TLCEval(CASE c < 2 -> lit(Split(h, 3))
                           [] c = 2 -> <<"un", IF t = U(g) THEN "!" ELSE "-", leaf(Split(h, 3))>>
                           [] OTHER -> <<"bin", PickSeq(Split(h, 4), ops), leaf(Split(h, 3)), leaf(Split(h, 5))>>)
            P == [w |-> g.w, consts |-> acc, fns |-> <<>>, env |-> <<>>]
            keep == TLCEval(Val(P, e, ConstEnv(P, 1, <<>>), TRUE)) # Undef
        IN LConsts(Split(h, 6), k, n - 1, g, Append(acc, <<name, LWritten(Split(h, 7), t, g), t, IF keep THEN e ELSE lit(Split(h, 8))>>))
LParams(h, g) == LET n == 1 + Pick(Split(h, 1), 3)
                     names == PickSeq(Split(h, 2), <<<<"x", "y", "z">>, <<"a", "b", "c">>, <<"x", "t", "k">>, <<"arg", "mean", "sigma">>, <<"y", "x", "w">>>>)
                     ts == [j \in 1..n |-> IF j = 1 \/ Pick(Split(h, 10 + j), 3) > 0 THEN F(g) ELSE PickSeq(Split(h, 20 + j), <<U(g), I(g)>>)]
                 IN [j \in 1..n |-> <<names[j], LWritten(Split(h, 30 + j), ts[j], g), ts[j]>> \o (IF Pick(Split(h, 40 + j), 6) = 0 THEN <<TRUE>> ELSE <<>>)]
\* names that the translation knows, and others
FnNames == <<"sin", "cos", "tan", "exp2", "powf", "log2", "ln", "hypot", "recip", "max", "cbrt", "atan2">>
FnName(h, k, n) == IF Pick(h, 3) = 0 THEN FnNames[((Pick(Split(h, 1), 3) * 4 + n) % Len(FnNames)) + 1] \o (IF Pick(Split(h, 2), 4) = 0 THEN "_" ELSE "") ELSE "f" \o ZI(k) \o "_" \o ZI(n)
LFns(h, k, n, g, consts, acc) ==
   IF n = 0 THEN acc
   ELSE LET ps == TLCEval(LParams(Split(h, 1), g))
            t == IF Pick(Split(h, 2), 3) > 0 THEN F(g) ELSE PickSeq(Split(h, 3), <<U(g), I(g)>>)
            g2 == [g EXCEPT !.fns = acc]
            sc == consts \o [j \in 1..Len(ps) |-> <<ps[j][1], ps[j][3], Len(ps[j]) > 3>>]
            name == FnName(Split(h, 7), k, Len(acc) + 1)
            taken == \E j \in 1..Len(acc) : acc[j][1] = name
            f == <<IF taken THEN "f" \o ZI(k) \o "_" \o ZI(Len(acc) + 1) ELSE name, ps, t, LWritten(Split(h, 4), t, g), TLCEval(LBody(Split(h, 5), t, g2, sc))>> \o (IF Pick(Split(h, 9), 5) = 0 THEN <<TRUE>> ELSE <<>>)
        IN LFns(Split(h, 6), k, n - 1, g, consts, Append(acc, f))
LProgram(k) ==
   LET h == H(k)
       g == [w |-> IF k % 2 = 0 THEN 32 ELSE 64, fns |-> <<>>, const |-> FALSE]
       cs == TLCEval(LConsts(Split(h, 1), k, Pick(Split(h, 2), 4), g, <<>>))
       sc == [j \in 1..Len(cs) |-> <<cs[j][1], cs[j][3], FALSE>>]
       fs == TLCEval(LFns(Split(h, 3), k, 1 + Pick(Split(h, 4), 3), g, sc, <<>>))
       P == [w |-> g.w, consts |-> cs, fns |-> fs, env |-> <<>>]
   IN [P EXCEPT !.env = TLCEval(ConstEnv(P, 1, <<>>))]
\* items come in any order
LSource(P, k) ==
   LET fs == Rotate(P.fns, Pick(Split(H(k), 9), 3)) cs == Rotate(P.consts, Pick(Split(H(k), 14), 3)) o == Pick(Split(H(k), 10), 4)
       n == Len(fs) \div 2
   IN CASE o = 0 -> RFns(fs, 1) \o RConsts(cs) \o LAliases(P.w)
        [] o = 1 -> LAliases(P.w) \o RFns(SubSeq(fs, 1, n), 1) \o RConsts(cs) \o RFns(fs, n + 1)
        [] OTHER -> LAliases(P.w) \o RConsts(cs) \o RFns(fs, 1)

(***************************************************************************)
(* Vectors: their lanes are calls of Programs that have a value. The       *)
(* function is applied to lanes of different calls.                        *)
(***************************************************************************)
LaneCount(k) == PickSeq(Split(H(k), 11), <<4, 4, 2, 8, 1>>)
Picked(cs, fn) == SelectSeq(cs, LAMBDA c : c[1] = fn)
\* the lanes of vector v of function fn: positions among its calls
LaneOf(m, v, j) == ((v * 3 + (j - 1) * (IF v = 2 /\ m > 2 THEN m - 1 ELSE 1)) % m) + 1
Vector(P, k, cs, fn, v) == LET mine == Picked(cs, fn) IN [j \in 1..LaneCount(k) |-> mine[LaneOf(Len(mine), v, j)][2]]
RECURSIVE VectorsOf(_, _, _, _)
\* <<function, lanes: arguments>>
VectorsOf(P, k, cs, fn) ==
   IF fn > Len(P.fns) THEN <<>>
   ELSE (IF Picked(cs, fn) = <<>> THEN <<>> ELSE <<<<fn, Vector(P, k, cs, fn, 1)>>, <<fn, Vector(P, k, cs, fn, 2)>>>>) \o VectorsOf(P, k, cs, fn + 1)
Vectors(P, k) == VectorsOf(P, k, AllCalls(P, k, 1), 1)

\* the driver's text
LaneT(t) == CASE FloatT(t) -> "Self" [] Signed(t) -> "Self::IntType" [] OTHER -> "Self::UintType"
RECURSIVE TraitArgs(_, _), TraitFns(_, _), LaneTexts(_, _, _), VecArgs(_, _, _, _), VecCalls(_, _, _, _), OneCalls(_, _, _, _)
TraitArgs(ps, j) == IF j > Len(ps) THEN "" ELSE ", a" \o ZI(j) \o ": " \o LaneT(ps[j][3]) \o TraitArgs(ps, j + 1)
TraitFns(fs, j) == IF j > Len(fs) THEN "" ELSE "fn " \o fs[j][1] \o "(self" \o TraitArgs(fs[j][2], 2) \o ") -> " \o LaneT(fs[j][3]) \o "; " \o TraitFns(fs, j + 1)
LaneTexts(lanes, a, j) == IF j > Len(lanes) THEN "" ELSE (IF j > 1 THEN ", " ELSE "") \o RArg(lanes[j][a]) \o LaneTexts(lanes, a, j + 1)
VecArgs(lanes, ps, a, n) == IF a > Len(ps) THEN "" ELSE (IF a > 1 THEN ", " ELSE "") \o "Simd::<" \o ps[a][3] \o ", " \o ZI(n) \o ">::from_array([" \o LaneTexts(lanes, a, 1) \o "])" \o VecArgs(lanes, ps, a + 1, n)
VecCalls(P, k, vs, j) == IF j > Len(vs) THEN "" ELSE
   LET f == P.fns[vs[j][1]] IN
   "for q in StdLibm::" \o f[1] \o "(" \o VecArgs(vs[j][2], f[2], 1, LaneCount(k)) \o ").to_array() { " \o Show(f[3]) \o "(q); } " \o VecCalls(P, k, vs, j + 1)
OneCalls(P, k, vs, j) == IF j > Len(vs) THEN "" ELSE RCalls(P, [m \in 1..Len(vs[j][2]) |-> <<vs[j][1], vs[j][2][m]>>]) \o OneCalls(P, k, vs, j + 1)
===============================================================================
