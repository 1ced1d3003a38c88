-------------------------------- MODULE Program ---------------------------------
(***************************************************************************)
(* Files of constants, type aliases and functions (C01, S01): their text   *)
(* as Rust and their meaning.                                              *)
(*                                                                         *)
(* Types: f32 f64 u32 u64 usize i32 i64 bool; a file also has the aliases  *)
(* fty, uty and ity of one width. A value is <<type, v>>: v is an integer, *)
(* the bits of a float ("nan" for any NaN) or 0 / 1. Undef stands for what *)
(* has no value: overflow, division by zero, a shift too far, a float that *)
(* fits no integer, the bits of a NaN.                                     *)
(*                                                                         *)
(* Expressions:                                                            *)
(*   <<"lit", text, type>>        <<"var", name>>      <<"par", a>>        *)
(*   <<"bin", op, a, b>>          <<"un", op, a>>                          *)
(*   <<"cast", written, type, a>> <<"if", c, block, block>>  <<"blk", b>>  *)
(*   <<"call", function, args>>   <<"met", name, a, args>>                 *)
(*   <<"from", a>>                fty::from_bits(a)                        *)
(*   <<"bits", type, a, written>> type::from_bits(a)                       *)
(*   <<"path", name, type, written>>             type::name                *)
(* A block is <<statements, tail>>. Statements:                            *)
(*   <<"let", name, written or "", mutable, a>>   <<"dec", name, written>> *)
(*   <<"set", name, op or "", a>>                                          *)
(*   <<"con", name, written, a, depth>>           a constant of the block  *)
(*   <<"when", c, statements, has else, statements>>                       *)
(*   <<"do", statements>>                                                  *)
(***************************************************************************)
EXTENDS Float, TLC

Undef == <<"undef">>
FloatT(t) == t \in {"f32", "f64"}
IntT(t) == t \in {"u32", "u64", "usize", "i32", "i64"}
Signed(t) == t \in {"i32", "i64"}
Bits(t) == IF t \in {"f32", "u32", "i32"} THEN 32 ELSE 64
MinOf(t) == IF Signed(t) THEN ZNeg(ZPow2(Bits(t) - 1)) ELSE "0"
MaxOf(t) == ZSub(ZPow2(IF Signed(t) THEN Bits(t) - 1 ELSE Bits(t)), 1)
Fits(v, t) == ZLe(MinOf(t), v) /\ ZLe(v, MaxOf(t))
IntV(v, t) == IF Fits(v, t) THEN <<t, v>> ELSE Undef
Wrap(v, t) == LET m == ZMod(v, ZPow2(Bits(t))) IN <<t, IF ZLt(MaxOf(t), m) THEN ZSub(m, ZPow2(Bits(t))) ELSE m>>
BoolV(b) == <<"bool", IF b THEN "1" ELSE "0">>
FloatV(x, t) == <<t, IF x # "nan" /\ IsNan(x, Bits(t)) THEN "nan" ELSE x>>

(***************************************************************************)
(* Floating point: exact, then rounded once.                               *)
(***************************************************************************)
NearestM(m, e, b) == IF e >= 0 THEN Nearest(ZShl(m, e), "1", b) ELSE Nearest(m, ZPow2(-e), b)
Zero(neg, b) == IF neg THEN SignBit(b) ELSE "0"
Inf(neg, b) == IF neg THEN ZAdd(InfBits(b), SignBit(b)) ELSE InfBits(b)
IsZero(x, b) == ZEq(Mag(x, b), "0")
\* the sum of m * 2^e and the float y; neg is the sign of m when it is zero
Plus(m, e, neg, y, b) ==
   LET f == FE(y, b)
       l == IF e < f THEN e ELSE f
       s == ZAdd(ZShl(m, e - l), ZShl(FM(y, b), f - l))
   IN IF ZSgn(s) = 0 THEN Zero(ZSgn(m) = 0 /\ neg /\ IsZero(y, b) /\ IsNeg(y, b), b) ELSE NearestM(s, l, b)
FAdd(x, y, b) ==
   CASE x = "nan" \/ y = "nan" -> "nan"
     [] IsInf(x, b) -> IF IsInf(y, b) /\ IsNeg(x, b) # IsNeg(y, b) THEN "nan" ELSE x
     [] IsInf(y, b) -> y
     [] OTHER -> Plus(FM(x, b), FE(x, b), IsNeg(x, b), y, b)
FNeg(x, b) == IF x = "nan" THEN x ELSE Negate(x, b)
FSub(x, y, b) == FAdd(x, FNeg(y, b), b)
FTimes(x, y, b) ==
   IF x = "nan" \/ y = "nan" THEN "nan"
   ELSE LET neg == IsNeg(x, b) # IsNeg(y, b) IN
        CASE IsInf(x, b) -> IF IsZero(y, b) THEN "nan" ELSE Inf(neg, b)
          [] IsInf(y, b) -> IF IsZero(x, b) THEN "nan" ELSE Inf(neg, b)
          [] IsZero(x, b) \/ IsZero(y, b) -> Zero(neg, b)
          [] OTHER -> NearestM(ZMul(FM(x, b), FM(y, b)), FE(x, b) + FE(y, b), b)
FOver(x, y, b) ==
   IF x = "nan" \/ y = "nan" THEN "nan"
   ELSE LET neg == IsNeg(x, b) # IsNeg(y, b) IN
        CASE IsInf(x, b) -> IF IsInf(y, b) THEN "nan" ELSE Inf(neg, b)
          [] IsInf(y, b) -> Zero(neg, b)
          [] IsZero(y, b) -> IF IsZero(x, b) THEN "nan" ELSE Inf(neg, b)
          [] IsZero(x, b) -> Zero(neg, b)
          [] OTHER -> LET e == FE(x, b) - FE(y, b)
                          p == IF neg THEN ZNeg(ZAbs(FM(x, b))) ELSE ZAbs(FM(x, b))
                          q == ZAbs(FM(y, b))
                      IN IF e >= 0 THEN Nearest(ZShl(p, e), q, b) ELSE Nearest(p, ZShl(q, -e), b)
FFma(x, y, z, b) ==
   LET p == FTimes(x, y, b) IN
   IF p = "nan" \/ z = "nan" THEN "nan"
   ELSE IF IsInf(x, b) \/ IsInf(y, b) \/ IsInf(z, b) THEN (IF IsInf(x, b) \/ IsInf(y, b) THEN FAdd(p, z, b) ELSE z)
   ELSE Plus(ZMul(FM(x, b), FM(y, b)), FE(x, b) + FE(y, b), IsNeg(x, b) # IsNeg(y, b), z, b)
FRoot(x, b) ==
   CASE x = "nan" -> x
     [] IsZero(x, b) -> x
     [] IsNeg(x, b) -> "nan"
     [] IsInf(x, b) -> x
     [] OTHER -> LET e == FE(x, b)
                     m == IF e % 2 = 0 THEN FM(x, b) ELSE ZShl(FM(x, b), 1)
                     h == (IF e % 2 = 0 THEN e ELSE e - 1) \div 2
                     big == ZShl(m, 120)
                     s == ZSqrt(big)
                 IN IF ZEq(ZMul(s, s), big) THEN NearestM(s, h - 60, b) ELSE NearestM(ZAdd(ZShl(s, 1), 1), h - 61, b)
\* floor, ceil, trunc, round: the integer f of the exact value, with the sign of x
FWhole(name, x, b) ==
   IF x = "nan" THEN x
   ELSE IF ~IsFinite(x, b) \/ FE(x, b) >= 0 THEN x
   ELSE LET q == ZPow2(-FE(x, b))
            m == FM(x, b)
            v == CASE name = "floor" -> ZDiv(m, q)
                   [] name = "ceil" -> ZNeg(ZDiv(ZNeg(m), q))
                   [] name = "trunc" -> IF ZSgn(m) < 0 THEN ZNeg(ZDiv(ZNeg(m), q)) ELSE ZDiv(m, q)
                   [] OTHER -> ZDivR(m, q)
        IN IF ZSgn(v) = 0 THEN Zero(IsNeg(x, b), b) ELSE Nearest(v, "1", b)
FLess(x, y, b) == IF x = "nan" \/ y = "nan" THEN FALSE ELSE ZLt(Ord(x, b), Ord(y, b))
FSame(x, y, b) == IF x = "nan" \/ y = "nan" THEN FALSE ELSE ZEq(Ord(x, b), Ord(y, b))

(***************************************************************************)
(* Operators, casts and methods.                                           *)
(***************************************************************************)
Compare(op, lt, eq, un) ==      \* less, equal, unordered
   BoolV(CASE op = "<" -> lt [] op = "<=" -> lt \/ eq [] op = "==" -> eq [] op = "!=" -> ~eq
           [] op = ">" -> ~lt /\ ~eq /\ ~un [] OTHER -> ~lt /\ ~un)
Relations == {"<", "<=", "==", "!=", ">", ">="}
IntOp(op, x, y, t) ==
   CASE op = "+" -> IntV(ZAdd(x, y), t)
     [] op = "-" -> IntV(ZSub(x, y), t)
     [] op = "*" -> IntV(ZMul(x, y), t)
     [] op = "/" -> IF ZSgn(y) = 0 THEN Undef
                    ELSE LET q == ZDiv(ZAbs(x), ZAbs(y)) IN IntV(IF ZSgn(x) * ZSgn(y) < 0 THEN ZNeg(q) ELSE q, t)
     [] op = "%" -> IF ZSgn(y) = 0 \/ (Signed(t) /\ ZEq(x, MinOf(t)) /\ ZEq(y, "-1")) THEN Undef
                    ELSE LET r == ZMod(ZAbs(x), ZAbs(y)) IN <<t, IF ZSgn(x) < 0 THEN ZNeg(r) ELSE r>>
     [] op \in {"&", "|", "^"} -> LET n == Bits(t) a == ZMod(x, ZPow2(n)) c == ZMod(y, ZPow2(n)) IN
                    Wrap(CASE op = "&" -> ZAnd(a, c) [] op = "|" -> ZOr(a, c) [] OTHER -> ZXor(a, c), t)
     [] OTHER -> Undef
Shift(op, x, n, t) ==
   IF ZSgn(n) < 0 \/ ZLe(Bits(t), n) THEN Undef
   ELSE IF op = "<<" THEN Wrap(ZShl(x, ZInt(n)), t) ELSE <<t, ZShl(x, -ZInt(n))>>
Binary(op, a, b) ==
   LET t == a[1] x == a[2] y == b[2] IN
   CASE op \in Relations -> IF FloatT(t) THEN Compare(op, FLess(x, y, Bits(t)), FSame(x, y, Bits(t)), x = "nan" \/ y = "nan")
                            ELSE Compare(op, ZLt(x, y), ZEq(x, y), FALSE)
     [] op \in {"<<", ">>"} -> Shift(op, x, y, t)
     [] t = "bool" -> BoolV(CASE op = "&" -> x = "1" /\ y = "1" [] op = "|" -> x = "1" \/ y = "1" [] OTHER -> x # y)
     [] FloatT(t) -> <<t, CASE op = "+" -> FAdd(x, y, Bits(t)) [] op = "-" -> FSub(x, y, Bits(t))
                            [] op = "*" -> FTimes(x, y, Bits(t)) [] OTHER -> FOver(x, y, Bits(t))>>
     [] OTHER -> IntOp(op, x, y, t)
Unary(op, a) ==
   CASE op = "-" /\ FloatT(a[1]) -> <<a[1], FNeg(a[2], Bits(a[1]))>>
     [] op = "-" -> IntV(ZNeg(a[2]), a[1])
     [] a[1] = "bool" -> BoolV(a[2] = "0")
     [] OTHER -> Wrap(ZSub("-1", a[2]), a[1])
CastTo(t, a) ==
   LET s == a[1] x == a[2] IN
   CASE FloatT(s) /\ FloatT(t) ->
          <<t, IF x = "nan" THEN x ELSE IF IsInf(x, Bits(s)) THEN Inf(IsNeg(x, Bits(s)), Bits(t))
               ELSE IF IsZero(x, Bits(s)) THEN Zero(IsNeg(x, Bits(s)), Bits(t)) ELSE NearestM(FM(x, Bits(s)), FE(x, Bits(s)), Bits(t))>>
     [] FloatT(t) -> <<t, Nearest(x, "1", Bits(t))>>
     [] FloatT(s) -> IF x = "nan" THEN Undef ELSE IF ~IsFinite(x, Bits(s)) THEN Undef
                     ELSE LET w == FWhole("trunc", x, Bits(s)) IN
                          IntV(IF FE(w, Bits(s)) >= 0 THEN ZShl(FM(w, Bits(s)), FE(w, Bits(s))) ELSE ZDiv(FM(w, Bits(s)), ZPow2(-FE(w, Bits(s)))), t)
     [] OTHER -> Wrap(x, t)
\* fz: multiply-adds are fused
Method(name, a, args, fz) ==
   LET t == a[1] x == a[2] b == Bits(t) y == IF args = <<>> THEN "0" ELSE args[1][2] IN
   CASE name = "abs" -> <<t, IF x = "nan" THEN x ELSE Mag(x, b)>>
     [] name \in {"floor", "ceil", "trunc", "round"} -> <<t, FWhole(name, x, b)>>
     [] name = "sqrt" -> <<t, FRoot(x, b)>>
     [] name = "recip" -> <<t, FOver(OfInt(1, b), x, b)>>
     [] name \in {"min", "max"} ->
          IF x = "nan" THEN <<t, y>> ELSE IF y = "nan" THEN <<t, x>>
          ELSE IF IsZero(x, b) /\ IsZero(y, b) /\ x # y THEN Undef
          ELSE <<t, IF FLess(x, y, b) = (name = "min") THEN x ELSE y>>
     [] name = "copysign" -> IF y = "nan" \/ x = "nan" THEN Undef ELSE <<t, IF IsNeg(x, b) = IsNeg(y, b) THEN x ELSE Negate(x, b)>>
     [] name = "mul_add" -> <<t, IF fz THEN FFma(x, y, args[2][2], b) ELSE FAdd(FTimes(x, y, b), args[2][2], b)>>
     [] name = "wrapping_mul" -> Wrap(ZMul(x, y), t)
     [] name = "to_bits" -> IF x = "nan" THEN Undef ELSE <<IF t = "f32" THEN "u32" ELSE "u64", x>>
     [] OTHER -> Undef
LitV(text, t) ==
   LET z == ZDec(text) IN
   IF FloatT(t) THEN <<t, NearestDec(z[1], z[2], Bits(t))>> ELSE IF t = "bool" THEN BoolV(text = "true") ELSE IntV(ZDiv(z[1], ZPow10(z[2])), t)

(***************************************************************************)
(* Meaning. A program P is [w, consts, fns]: consts are                    *)
(* <<name, written, type, expression>>, functions are                      *)
(* <<name, parameters, type, written, block>> with parameters              *)
(* <<name, written, type>>, and TRUE if mutable. env is a sequence of <<name, value>>, the last *)
(* binding of a name counts.                                               *)
(***************************************************************************)
Find(env, name) == LET s == {j \in 1..Len(env) : env[j][1] = name} IN
                   IF s = {} THEN Undef ELSE env[CHOOSE j \in s : \A k \in s : k <= j][2]
Assign(env, name, v) == LET s == {j \in 1..Len(env) : env[j][1] = name} IN
                        [env EXCEPT ![CHOOSE j \in s : \A k \in s : k <= j] = <<name, v>>]
FnOf(P, name) == P.fns[CHOOSE j \in 1..Len(P.fns) : P.fns[j][1] = name]
ExpLow(b) == IF b = 32 THEN 23 ELSE 52      \* the smallest normal number is 2^this as bits
RECURSIVE Val(_, _, _, _), BlockVal(_, _, _, _), RunS(_, _, _, _), RunAll(_, _, _, _), CallVal(_, _, _, _), CallEnv(_, _, _)
Stuck == <<<<"undef", Undef>>>>      \* no environment: a statement had no value
Val(P, e, env, fz) ==
   CASE e[1] = "lit" -> LitV(e[2], e[3])
     [] e[1] = "var" -> Find(env, e[2])
     [] e[1] = "par" -> Val(P, e[2], env, fz)
     [] e[1] = "bin" /\ e[2] \in {"&&", "||"} ->
          LET a == Val(P, e[3], env, fz) IN
          IF a = Undef THEN a ELSE IF (a[2] = "1") = (e[2] = "||") THEN a ELSE Val(P, e[4], env, fz)
     [] e[1] = "bin" -> LET a == Val(P, e[3], env, fz) b == Val(P, e[4], env, fz) IN
                        IF a = Undef \/ b = Undef THEN Undef ELSE Binary(e[2], a, b)
     [] e[1] = "un" -> LET a == Val(P, e[3], env, fz) IN IF a = Undef THEN a ELSE Unary(e[2], a)
     [] e[1] = "cast" -> LET a == Val(P, e[4], env, fz) IN IF a = Undef THEN a ELSE CastTo(e[3], a)
     [] e[1] = "if" -> LET c == Val(P, e[2], env, fz) IN
                       IF c = Undef THEN c ELSE BlockVal(P, IF c[2] = "1" THEN e[3] ELSE e[4], env, fz)
     [] e[1] = "blk" -> BlockVal(P, e[2], env, fz)
     [] e[1] = "from" -> LET a == Val(P, e[2], env, fz) IN IF a = Undef THEN a ELSE FloatV(a[2], IF P.w = 32 THEN "f32" ELSE "f64")
     [] e[1] = "bits" -> LET a == Val(P, e[3], env, fz) IN IF a = Undef THEN a ELSE FloatV(a[2], e[2])
     [] e[1] = "path" -> <<e[3], CASE e[2] = "NAN" -> "nan" [] e[2] = "INFINITY" -> InfBits(Bits(e[3])) [] OTHER -> ZPow2(ExpLow(Bits(e[3])))>>
     [] e[1] = "call" -> LET a == TLCEval([j \in 1..Len(e[3]) |-> Val(P, e[3][j], env, fz)]) IN
                         IF \E j \in 1..Len(a) : a[j] = Undef THEN Undef ELSE CallVal(P, e[2], a, fz)
     [] OTHER -> LET a == Val(P, e[3], env, fz)
                     s == TLCEval([j \in 1..Len(e[4]) |-> Val(P, e[4][j], env, fz)])
                 IN IF a = Undef \/ (\E j \in 1..Len(s) : s[j] = Undef) THEN Undef ELSE Method(e[2], a, s, fz)
\* one statement: the environment after it, or Stuck
RunS(P, s, env, fz) ==
   CASE s[1] = "dec" -> Append(env, <<s[2], Undef>>)
     [] s[1] = "con" -> Append(env, <<s[2], TLCEval(Val(P, s[4], env, fz))>>)
     \* variables of the inner block are gone after it
     [] s[1] = "do" -> LET n == TLCEval(RunAll(P, s[2], env, fz)) IN IF n = Stuck THEN n ELSE SubSeq(n, 1, Len(env))
     [] s[1] = "when" -> LET c == TLCEval(Val(P, s[2], env, fz)) IN
                         IF c = Undef THEN Stuck
                         ELSE LET n == TLCEval(RunAll(P, IF c[2] = "1" THEN s[3] ELSE s[5], env, fz)) IN IF n = Stuck THEN n ELSE SubSeq(n, 1, Len(env))
     [] s[1] = "let" -> LET v == TLCEval(Val(P, s[5], env, fz)) IN IF v = Undef THEN Stuck ELSE Append(env, <<s[2], v>>)
     [] OTHER -> LET v == TLCEval(Val(P, IF s[3] = "" THEN s[4] ELSE <<"bin", s[3], <<"var", s[2]>>, s[4]>>, env, fz)) IN
                 IF v = Undef THEN Stuck ELSE Assign(env, s[2], v)
RunAll(P, ss, env, fz) == IF ss = <<>> THEN env
                          ELSE LET n == TLCEval(RunS(P, Head(ss), env, fz)) IN IF n = Stuck THEN n ELSE RunAll(P, Tail(ss), n, fz)
\* Constants are known in all of their block: first those without constants of the block, then those made of them, ...
ConDepth(s) == IF s[1] # "con" THEN 100 ELSE IF Len(s) > 4 THEN s[5] ELSE 0
Hoisted(ss) == LET at(d) == SelectSeq(ss, LAMBDA s : ConDepth(s) = d) IN at(0) \o at(1) \o at(2) \o at(3) \o at(4) \o at(5) \o at(100)
BlockVal(P, b, env, fz) == LET n == TLCEval(RunAll(P, Hoisted(b[1]), env, fz)) IN IF n = Stuck THEN Undef ELSE Val(P, b[2], n, fz)
\* the constants, evaluated in order
RECURSIVE ConstEnv(_, _, _)
ConstEnv(P, k, env) == IF k > Len(P.consts) THEN env
                       ELSE ConstEnv(P, k + 1, Append(env, <<P.consts[k][1], TLCEval(Val(P, P.consts[k][4], env, TRUE))>>))
CallEnv(P, f, args) == P.env \o [j \in 1..Len(args) |-> <<f[2][j][1], args[j]>>]
CallVal(P, name, args, fz) == LET f == FnOf(P, name) IN BlockVal(P, f[5], CallEnv(P, f, args), fz)

(***************************************************************************)
(* Text, with the parentheses that Rust needs and no others.               *)
(***************************************************************************)
Level(e) == CASE e[1] = "bin" -> (CASE e[2] \in {"*", "/", "%"} -> 8 [] e[2] \in {"+", "-"} -> 7 [] e[2] \in {"<<", ">>"} -> 6 [] e[2] = "&" -> 5
                                    [] e[2] = "^" -> 4 [] e[2] = "|" -> 3 [] e[2] \in Relations -> 2 [] e[2] = "&&" -> 1 [] OTHER -> 0)
              [] e[1] = "cast" -> 9
              [] e[1] = "un" -> 10
              [] e[1] \in {"if", "blk"} -> -1
              [] OTHER -> 11
RECURSIVE EndsInCast(_)
EndsInCast(e) == \/ e[1] = "cast"
                 \/ e[1] = "bin" /\ Level(e[4]) > Level(e) /\ EndsInCast(e[4])
RECURSIVE RText(_), RBlock(_), RStmt(_), RStmts(_), RArgs(_, _), ROperand(_, _)
ROperand(e, l) == IF Level(e) < l THEN "(" \o RText(e) \o ")" ELSE RText(e)
RArgs(s, k) == IF k > Len(s) THEN "" ELSE (IF k > 1 THEN ", " ELSE "") \o RText(s[k]) \o RArgs(s, k + 1)
RText(e) ==
   CASE e[1] = "lit" -> e[2]
     [] e[1] = "var" -> e[2]
     [] e[1] = "par" -> "(" \o RText(e[2]) \o ")"
     [] e[1] = "bin" -> LET l == Level(e)
                            low == IF e[2] \in Relations THEN l + 1 ELSE l
                            cut == e[2] \in {"<", "<=", "<<"} /\ EndsInCast(e[3])
                        IN (IF cut THEN "(" \o RText(e[3]) \o ")" ELSE ROperand(e[3], low)) \o " " \o e[2] \o " " \o ROperand(e[4], l + 1)
     [] e[1] = "un" -> e[2] \o ROperand(e[3], 10)
     [] e[1] = "cast" -> ROperand(e[4], 9) \o " as " \o e[2]
     [] e[1] = "if" -> "if " \o RText(e[2]) \o " " \o RBlock(e[3]) \o " else "
                       \o (IF e[4][1] = <<>> /\ e[4][2][1] = "if" THEN RText(e[4][2]) ELSE RBlock(e[4]))
     [] e[1] = "blk" -> RBlock(e[2])
     [] e[1] = "from" -> "fty::from_bits(" \o RText(e[2]) \o ")"
     [] e[1] = "bits" -> (IF Len(e) > 3 THEN e[4] ELSE e[2]) \o "::from_bits(" \o RText(e[3]) \o ")"
     [] e[1] = "path" -> (IF Len(e) > 3 THEN e[4] ELSE e[3]) \o "::" \o e[2]
     [] e[1] = "call" -> e[2] \o "(" \o RArgs(e[3], 1) \o ")"
     [] OTHER -> ROperand(e[3], 11) \o "." \o e[2] \o "(" \o RArgs(e[4], 1) \o ")"
\* "r#name" is the same name; written where it is made
Raw(name) == IF name \in {"signed", "short", "u"} THEN "r#" \o name ELSE name
RBlock(b) == "{ " \o RStmts(b[1]) \o RText(b[2]) \o " }"
RStmt(s) ==
   CASE s[1] = "let" -> "let " \o (IF s[4] THEN "mut " ELSE "") \o Raw(s[2]) \o (IF s[3] = "" THEN "" ELSE ": " \o s[3]) \o " = " \o RText(s[5]) \o "; "
     [] s[1] = "dec" -> "let " \o Raw(s[2]) \o ": " \o s[3] \o "; "
     [] s[1] = "con" -> "const " \o s[2] \o ": " \o s[3] \o " = " \o RText(s[4]) \o "; "
     [] s[1] = "do" -> "{ " \o RStmts(s[2]) \o "} "
     [] s[1] = "when" -> "if " \o RText(s[2]) \o " { " \o RStmts(s[3]) \o "} "
                         \o (IF ~s[4] THEN "" ELSE IF Len(s[5]) = 1 /\ s[5][1][1] = "when" THEN "else " \o RStmts(s[5]) ELSE "else { " \o RStmts(s[5]) \o "} ")
     [] OTHER -> s[2] \o " " \o s[3] \o "= " \o RText(s[4]) \o "; "
RStmts(ss) == IF ss = <<>> THEN "" ELSE RStmt(Head(ss)) \o RStmts(Tail(ss))
RECURSIVE RParams(_, _), RConsts(_), RFns(_, _)
RParams(ps, k) == IF k > Len(ps) THEN "" ELSE (IF k > 1 THEN ", " ELSE "") \o (IF Len(ps[k]) > 3 THEN "mut " ELSE "") \o ps[k][1] \o ": " \o ps[k][2] \o RParams(ps, k + 1)
RConsts(cs) == IF cs = <<>> THEN "" ELSE "const " \o Head(cs)[1] \o ": " \o Head(cs)[2] \o " = " \o RText(Head(cs)[4]) \o "; " \o RConsts(Tail(cs))
\* a function of the file alone, or of its users too
RFn(f) == (IF Len(f) > 5 THEN "fn " ELSE "pub fn ") \o f[1] \o "(" \o RParams(f[2], 1) \o ") -> " \o f[4] \o " " \o RBlock(f[5]) \o " "
RFns(fs, k) == IF k > Len(fs) THEN "" ELSE RFn(fs[k]) \o RFns(fs, k + 1)
Aliases(w) == IF w = 32 THEN "type fty = f32; type uty = u32; type ity = i32; " ELSE "type fty = f64; type uty = u64; type ity = i64; "
===============================================================================
