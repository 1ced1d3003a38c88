-------------------------------- MODULE Numbers ---------------------------------
(***************************************************************************)
(* Number types of literals (N01) and numbers as expressions (N02).        *)
(* Each record is one transition of a stateless converter; the relation    *)
(* between input and output is stated here, and NumbersTrace checks that   *)
(* every recorded conversion is one of its transitions.                    *)
(***************************************************************************)
EXTENDS Terms, Float
CONSTANTS Seed, Mode, Count, Chunk

H(k) == ZMix(ZMix(ZMix(Seed, ZHash(Mode, 1000003)), 55), k)

(***************************************************************************)
(* Literals that are hard to round: floats, the points halfway between two *)
(* of them and their neighbours, and ordinary numbers.                     *)
(***************************************************************************)
\* the exact decimal text of m * 2^e, with something added in one more place
Exact(m, e, plus) == IF e >= 0 THEN (IF plus = "0" THEN ZShow(ZShl(m, e), 0) \o ".0" ELSE ZShow(ZAdd(ZMul(ZShl(m, e), 10), plus), 1))
                     ELSE ZShow(ZAdd(ZMul(ZMul(m, ZPow("5", -e)), 10), plus), 1 - e)
RandFloat(h, b) == \* positive and finite, exponents mostly moderate
   LET c == Pick(h, 10)
       bias == ExpMax(b) \div 2
       e == CASE c = 0 -> Pick(Split(h, 1), 3)
              [] c = 1 -> ExpMax(b) - 1 - Pick(Split(h, 1), 2)
              [] c = 2 /\ b = 32 -> Pick(Split(h, 1), ExpMax(b))
              [] c = 2 -> bias + Pick(Split(h, 1), 400) - 200
              [] OTHER -> bias + Pick(Split(h, 1), 60) - 30
       m == CASE Pick(Split(h, 2), 4) = 0 -> "0"
              [] Pick(Split(h, 2), 4) = 1 -> ZSub(ZPow2(Mant(b)), 1)
              [] OTHER -> ZRandBits(Split(h, 3), Mant(b))
   IN ZAdd(ZMul(e, ZPow2(Mant(b))), m)
HardLit(h, b) ==
   LET x == RandFloat(Split(h, 1), b)
       m == FM(x, b)
       e == FE(x, b)
   IN IF e < -160 THEN ZShow(ZRandBits(h, 50), 5) \o "e-" \o ZI(Pick(Split(h, 2), IF b = 32 THEN 60 ELSE 340))
      ELSE IF e > 200 THEN ZShow(ZRandBits(h, 50), 14) \o "e" \o ZI(Pick(Split(h, 2), 290))
      ELSE CASE Pick(h, 5) = 0 -> Exact(m, e, "0")
             [] Pick(h, 5) = 1 -> Exact(ZAdd(ZMul(2, m), 1), e - 1, "0")
             [] Pick(h, 5) = 2 -> Exact(ZAdd(ZMul(2, m), 1), e - 1, "1")
             [] Pick(h, 5) = 3 -> Exact(ZAdd(ZMul(2, m), 1), e - 1, "-1")
             [] OTHER -> ZShow(ZRandBits(Split(h, 5), 80), Pick(Split(h, 6), 30))
Suffix(h) == PickSeq(h, <<"", "", "", "", "f32", "f64">>)
IntLit(h) == CASE Pick(h, 4) = 0 -> ZI(ZRandBits(Split(h, 1), 1 + Pick(Split(h, 2), 64)))
               [] Pick(h, 4) = 1 -> ZI(ZAdd(ZPow2(24 + Pick(Split(h, 1), 40)), Pick(Split(h, 2), 3)))
               [] OTHER -> PickSeq(Split(h, 3), <<"0", "1", "0x1F", "7u32", "1_000", "16777217", "9007199254740993", "255u8", "0b11">>)
Hard(h, b) == IF Pick(h, 4) = 0 THEN IntLit(Split(h, 1)) ELSE HardLit(Split(h, 2), b) \o Suffix(Split(h, 3))

RECURSIVE Relit(_, _, _)
Relit(t, h, b) ==
   CASE t[1] = "n" -> Num(Hard(h, b))
     [] t[1] = "p" -> <<"p", Relit(t[2], Split(h, 1), b)>>
     [] t[1] = "u" -> <<"u", t[2], Relit(t[3], Split(h, 1), b)>>
     [] t[1] = "o" -> <<"o", t[2], Relit(t[3], Split(h, 1), b), Relit(t[4], Split(h, 2), b)>>
     [] t[1] = "m" -> <<"m", t[2], Relit(t[3], Split(h, 1), b), [j \in 1..Len(t[4]) |-> Relit(t[4][j], Split(h, 1 + j), b)]>>
     [] t[1] = "f" -> <<"f", t[2], Relit(t[3], Split(h, 1), b)>>
     [] OTHER -> t

\* N01: <<type, bits, term>>
TypeOf(h) == PickSeq(h, <<"decimal", "hex", "decimal", "hex", "decimal", "hex", "octal", "">>)
BitsOf(h) == PickSeq(h, <<32, 64, 32, 64, 32, 64, 16>>)
Conversion(k) ==
   LET h == H(k)
       b == BitsOf(Split(h, 2))
       t == IF k <= 40 THEN Num(PickSeq(k, <<"0", "1", "2", "10", "0.1", "0.5", "1e39", "1e38", "3.4028235677973366e38",
                                             "340282356779733661637539395458142568447", "340282356779733661637539395458142568448", "1e400", "1e-400",
                                             "0.0", "1e-45", "5e-324">>))
            ELSE Relit(Gen(Split(h, 3), Pick(Split(h, 4), 4), PickSeq(Split(h, 5), <<"arith", "arith", "full">>)), Split(h, 6), IF b = 16 THEN 32 ELSE b)
   IN <<TypeOf(Split(h, 1)), b, t>>

NSupported(t) == LET RECURSIVE S(_)
                     S(u) == CASE u[1] \in {"n", "v", "b", "s"} -> TRUE
                               [] u[1] = "p" -> S(u[2])
                               [] u[1] = "u" -> S(u[3])
                               [] u[1] = "o" -> S(u[3]) /\ S(u[4])
                               [] u[1] = "m" -> S(u[3]) /\ \A j \in 1..Len(u[4]) : S(u[4][j])
                               [] u[1] = "f" -> S(u[3])
                               [] OTHER -> FALSE
                 IN S(t)
Known(type, b) == type \in {"decimal", "hex"} /\ b \in {32, 64}
TypeName(b) == IF b = 32 THEN "f32" ELSE "f64"
UintName(b) == IF b = 32 THEN "u32" ELSE "u64"

\* got replaces the literal t
LitOk(text, got, type, b) ==
   LET z == ZDec(text)
       want == NearestDec(z[1], z[2], b)
       near(x) == ZLe(UlpsApart(x, want, b), 1)
   IN IF type = "decimal"
      THEN got[1] = "n" /\ ZContains(got[2], TypeName(b)) /\ LET g == ZDec(got[2]) IN
           g[1] # "bad" /\ near(NearestDec(g[1], g[2], b))
      ELSE /\ got[1] = "c" /\ got[2] = <<"v", TypeName(b) \o "::from_bits">> /\ Len(got[3]) = 1
           /\ got[3][1][1] = "n" /\ (ZContains(got[3][1][2], UintName(b)) \/ ~ZContains(got[3][1][2], "u"))
           /\ LET g == ZDec(got[3][1][2]) IN g[1] # "bad" /\ g[2] = 0 /\ near(g[1])
TooLarge(text, b) == LET z == ZDec(text) IN IsInf(NearestDec(z[1], z[2], b), b)
RECURSIVE Overflows(_, _)
Overflows(t, b) ==
   CASE t[1] = "n" -> TooLarge(t[2], b)
     [] t[1] = "p" -> Overflows(t[2], b)
     [] t[1] = "u" -> Overflows(t[3], b)
     [] t[1] = "o" -> Overflows(t[3], b) \/ Overflows(t[4], b)
     [] t[1] = "m" -> Overflows(t[3], b) \/ \E j \in 1..Len(t[4]) : Overflows(t[4][j], b)
     [] t[1] = "f" -> Overflows(t[3], b)
     [] OTHER -> FALSE
RECURSIVE Converted(_, _, _, _)
Converted(t, got, type, b) ==
   CASE t[1] = "n" -> LitOk(t[2], got, type, b)
     [] t[1] # got[1] -> FALSE
     [] t[1] \in {"p", "g"} -> Converted(t[2], got[2], type, b)
     [] t[1] = "u" -> t[2] = got[2] /\ Converted(t[3], got[3], type, b)
     [] t[1] = "o" -> t[2] = got[2] /\ Converted(t[3], got[3], type, b) /\ Converted(t[4], got[4], type, b)
     [] t[1] = "m" -> /\ t[2] = got[2] /\ Converted(t[3], got[3], type, b) /\ Len(t[4]) = Len(got[4])
                      /\ \A j \in 1..Len(t[4]) : Converted(t[4][j], got[4][j], type, b)
     [] t[1] = "f" -> t[2] = got[2] /\ Converted(t[3], got[3], type, b)
     [] OTHER -> t = got

WhyConversion(c, src, rec) ==
   CASE Bare(src) # Bare(c[3]) -> "another expression"
     [] rec.st = "err" -> IF ~NSupported(src) \/ (Known(c[1], c[2]) /\ Overflows(src, c[2])) THEN "" ELSE "refused"
     [] rec.st # "ok" -> "no result: " \o rec.st
     [] Known(c[1], c[2]) /\ ~Converted(src, rec.ast, c[1], c[2]) -> "not the nearest number, or something else changed"
     [] ~Known(c[1], c[2]) /\ rec.ast # src -> "an unknown type changed the expression"
     [] ~Same(rec.re, rec.ast) -> "the printed form means something else"
     [] OTHER -> ""

(***************************************************************************)
(* N02: numbers as expressions.                                            *)
(***************************************************************************)
\* <<kind, text>>: a value and how it becomes an expression
Sources == <<"f64", "f32", "dec", "text", "f64", "f32", "dec", "bool", "find">>
NotNumbers == <<"x", "-1", "(1)", "1 + 1", "\"1\"", "true", "f64::consts::PI", "sin(1)", "1.abs()", "'a'", "[1 , 2]", "x.y">>
Names3 == <<"x", "y", "a::x">>
Source(k) ==
   LET h == H(k) s == PickSeq(k, Sources) IN
   CASE s = "f64" -> <<s, LET x == RandFloat(h, 64) IN IF Pick(Split(h, 8), 12) = 0 THEN (IF Pick(h, 2) = 0 THEN "0" ELSE SignBit(64))
                                                     ELSE IF Pick(Split(h, 8), 2) = 0 THEN x ELSE ZAdd(x, SignBit(64))>>
     [] s = "f32" -> <<s, LET x == RandFloat(h, 32) IN IF Pick(Split(h, 8), 12) = 0 THEN (IF Pick(h, 2) = 0 THEN "0" ELSE SignBit(32))
                                                     ELSE IF Pick(Split(h, 8), 2) = 0 THEN x ELSE ZAdd(x, SignBit(32))>>
     [] s = "dec" -> <<s, (IF Pick(Split(h, 8), 2) = 0 THEN "" ELSE "-") \o ZShow(ZRandBits(Split(h, 9), 1 + Pick(Split(h, 3), 200)), Pick(Split(h, 4), 60))>>
     [] s = "text" -> <<s, IF Pick(h, 3) = 0 THEN PickSeq(Split(h, 1), NotNumbers) ELSE Hard(Split(h, 2), IF Pick(h, 2) = 0 THEN 32 ELSE 64)>>
     [] s = "bool" -> <<s, IF Pick(h, 2) = 0 THEN "true" ELSE "false">>
     [] OTHER -> <<"find", LET n == Pick(h, 6) RECURSIVE L(_)
                               L(j) == IF j > n THEN "" ELSE PickSeq(Split(h, 10 + j), Names3) \o "=" \o ZI(j) \o " " \o L(j + 1)
                           IN L(1) \o PickSeq(Split(h, 7), Names3)>>
\* what a find scenario must give
Found(h, n, want) == LET S == {j \in 1..n : PickSeq(Split(h, 10 + j), Names3) = want} IN
                     IF S = {} THEN 0 ELSE CHOOSE j \in S : \A l \in S : j <= l

\* The value m * 10^-e a result states, or "bad".
LitNum(a) == IF a[1] = "n" THEN ZDec(a[2]) ELSE <<"bad", 0>>
\* |p/q - m 10^-e| <= |p/q| 10^-d
Digits(p, q, z, d) ==
   LET l == ZAbs(ZSub(ZMul(p, ZPow10(z[2])), ZMul(z[1], q))) IN
   ZLe(ZMul(l, ZPow10(d)), ZMul(ZAbs(p), ZPow10(z[2])))
Back(rec, z) ==      \* conversions back give the value z the expression states
   /\ rec.b64.st = "ok" /\ UlpsApart(rec.b64.v, NearestDec(z[1], z[2], 64), 64) = "0"
   /\ rec.b32.st = "ok" /\ UlpsApart(rec.b32.v, NearestDec(z[1], z[2], 32), 32) = "0"
   /\ rec.dec.st = "ok" /\ LET d == ZDec(rec.dec.v) e == IF d[2] > z[2] THEN d[2] ELSE z[2] IN
        d[1] # "bad" /\ ZMul(d[1], ZPow10(e - d[2])) = ZMul(z[1], ZPow10(e - z[2]))
NoNumber(rec) == rec.b64.st = "err" /\ rec.b32.st = "err" /\ rec.dec.st = "err"
WhyFloat(x, b, rec) ==
   LET z == LitNum(rec.ast)
       e == FE(x, b)
       p == IF e >= 0 THEN ZShl(FM(x, b), e) ELSE FM(x, b)
       q == IF e >= 0 THEN "1" ELSE ZPow2(-e)
   IN CASE z[1] = "bad" -> "not a literal"
        [] ~rec.lit \/ ~rec.num -> "not recognised as a number"
        [] ~Digits(p, q, z, IF b = 32 THEN 6 ELSE 15) -> "another value"
        [] ~Back(rec, z) -> "converts back to something else"
        [] OTHER -> ""
WhySource(k, rec) ==
   LET s == Source(k) IN
   CASE rec.st # "ok" -> "no result: " \o rec.st
     [] s[1] = "f64" -> WhyFloat(s[2], 64, rec)
     [] s[1] = "f32" -> WhyFloat(s[2], 32, rec)
     [] s[1] = "dec" -> LET w == ZDec(s[2]) z == LitNum(rec.ast) e == IF w[2] > z[2] THEN w[2] ELSE z[2] IN
          IF z[1] = "bad" \/ ~rec.lit \/ ~rec.num THEN "not recognised as a number"
          ELSE IF ZMul(w[1], ZPow10(e - w[2])) # ZMul(z[1], ZPow10(e - z[2])) THEN "another value"
          ELSE IF ~Back(rec, z) THEN "converts back to something else" ELSE ""
     [] s[1] = "text" -> IF rec.lit # (rec.ast[1] \in {"n", "b", "s"}) THEN "is_lit"
                         ELSE IF rec.num # (rec.ast[1] = "n") THEN "is_numeric"
                         ELSE IF rec.ast[1] = "n" THEN (IF rec.ast[2] # s[2] THEN "another text" ELSE IF Back(rec, ZDec(s[2])) THEN "" ELSE "converts to something else")
                         ELSE IF NoNumber(rec) THEN "" ELSE "a non-number became a number"
     [] s[1] = "bool" -> IF rec.ast = <<"b", s[2] = "true">> /\ rec.lit /\ ~rec.num /\ NoNumber(rec) THEN "" ELSE "truth value"
     [] OTHER -> LET h == H(k) n == Pick(h, 6) w == Found(h, n, PickSeq(Split(h, 7), Names3)) IN
                 IF rec.found = (IF w = 0 THEN <<"none">> ELSE <<"n", ZI(w)>>) THEN "" ELSE "another binding"

Line(k) == IF Mode = "N01" THEN LET c == Conversion(k) IN ZI(k) \o "\tnumtype\t" \o c[1] \o "\t" \o ZI(c[2]) \o "\t" \o Text(c[3])
           ELSE LET s == Source(k) IN ZI(k) \o "\tnumber\t" \o s[1] \o "\t" \o s[2]
Mod(a, b) == a % b
===============================================================================
