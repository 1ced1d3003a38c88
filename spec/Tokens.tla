--------------------------------- MODULE Tokens --------------------------------
(***************************************************************************)
(* Formatting of token streams (F01).                                      *)
(*                                                                         *)
(* A stream is a sequence of                                               *)
(*   <<"i", name>>  <<"l", text>>  <<"p", character, joint>>               *)
(*   <<"g", delimiter, stream>>    delimiter "<" is the invisible one      *)
(* What a compiler reads is its lexemes: the machine below reads one token *)
(* after another, joins the characters of operators as the lexer does      *)
(* (the longest operator first, and only characters without a gap), and    *)
(* does not see invisible delimiters. Formatting must keep the lexemes.    *)
(***************************************************************************)
EXTENDS Terms
CONSTANTS Seed, Count, Chunk

Ops3 == {"<<=", ">>=", "...", "..="}
Ops2 == {"::", "->", "<-", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<", ">>", "..",
         "//", "/*"}

\* one level of flattening: <<kind, text, joint>>
RECURSIVE Flat(_)
FlatTok(t) == CASE t[1] = "g" /\ t[2] = "<" -> Flat(t[3])
                [] t[1] = "g" -> <<<<"open", t[2]>>>> \o Flat(t[3]) \o <<<<"close", t[2]>>>>
                [] OTHER -> <<t>>
Flat(s) == IF s = <<>> THEN <<>> ELSE FlatTok(Head(s)) \o Flat(Tail(s))

\* Lexemes: a step takes the longest operator at the front.
Glued(s, n) == Len(s) >= n /\ (\A j \in 1..n : s[j][1] = "p") /\ \A j \in 1..n - 1 : s[j][3]
RECURSIVE Lexemes(_, _)
Lexemes(s, j) ==
   IF j > Len(s) THEN <<>>
   ELSE LET r == SubSeq(s, j, IF j + 2 > Len(s) THEN Len(s) ELSE j + 2) IN
        CASE s[j][1] # "p" -> <<s[j]>> \o Lexemes(s, j + 1)
          [] Glued(r, 3) /\ (r[1][2] \o r[2][2] \o r[3][2]) \in Ops3 -> <<<<"op", r[1][2] \o r[2][2] \o r[3][2]>>>> \o Lexemes(s, j + 3)
          [] Glued(r, 2) /\ (r[1][2] \o r[2][2]) \in Ops2 -> <<<<"op", r[1][2] \o r[2][2]>>>> \o Lexemes(s, j + 2)
          [] OTHER -> <<<<"op", s[j][2]>>>> \o Lexemes(s, j + 1)
Reads(stream) == Lexemes(TLCEval(Flat(stream)), 1)

(***************************************************************************)
(* Streams.                                                                *)
(***************************************************************************)
H(k) == ZMix(ZMix(Seed, 4711), k)
Id(n) == <<<<"i", n>>>>
LitT(t) == <<<<"l", t>>>>
NegT(t) == <<<<"p", "-", FALSE>>, <<"l", t>>>>
Pn(c, j) == <<"p", c, j>>
Idents == <<"x", "fn", "as", "f32", "let", "r#type", "_", "e5", "u8", "match", "f64", "abs">>
Literals == <<"1", "1.5", "1.", "0", "2f32", "1e5", "0x1F", "\"a%20b\"", "\"q%0aq\"", "'c'", "b'x'", "\"it's%20{%20}\"", "3usize", "1.0e-10", "b\"zz\"", "r\"raw\"">>
\* a string or character with text that looks like tokens
Pieces == <<"%20,%20", ";", "%20%20", "{%0a", "}", "//%20x", "/*", "%20-%20>", "a", "%20+=%20", "%5c%5c", "%5c\"", "::", "%20.%20", "'", "(%20", "%20)", "[", "%0a%20%20", "1%20.%200", "fn", ";%0a", "%5cn">>
RECURSIVE Glue(_, _)
Glue(h, n) == IF n = 0 THEN "" ELSE PickSeq(Split(h, 1), Pieces) \o Glue(Split(h, 2), n - 1)
Chars == <<"';'", "','", "'%20'", "'{'", "'}'", "'%5c''", "'\"'", "b';'", "'%5cn'", "'('">>
Written(h) == CASE Pick(h, 4) = 0 -> PickSeq(Split(h, 1), Chars)
                [] Pick(h, 8) = 1 -> "r#\"" \o Glue(Split(h, 2), Pick(Split(h, 3), 3)) \o "\"#"
                [] OTHER -> "\"" \o Glue(Split(h, 2), Pick(Split(h, 3), 5)) \o "\""
\* the characters of each operator
Operators == <<<<"+">>, <<"-">>, <<"*">>, <<"/">>, <<"%">>, <<"&">>, <<"|">>, <<"^">>, <<"!">>, <<"<">>, <<">">>, <<"=">>, <<".">>, <<",">>, <<";">>,
               <<":">>, <<"#">>, <<"?">>, <<"@">>, <<"$">>, <<"-", ">">>, <<"=", ">">>, <<"=", "=">>, <<"!", "=">>, <<"<", "=">>, <<">", "=">>, <<"&", "&">>,
               <<"|", "|">>, <<"<", "<">>, <<">", ">">>, <<":", ":">>, <<".", ".">>, <<".", ".", "=">>, <<"<", "<", "=">>, <<"+", "=">>, <<"'">>,
               <<"<">>, <<"-">>, <<"&">>, <<".">>, <<"=">>, <<"/">>, <<"|">>>>
OpT(c) == [j \in 1..Len(c) |-> Pn(c[j], j < Len(c))]
RECURSIVE Stream(_, _, _)
Stream(h, n, d) ==
   IF n = 0 THEN <<>>
   ELSE LET c == Pick(h, 100)
            h1 == Split(h, 1)
            one == CASE c < 22 -> Id(PickSeq(h1, Idents))
                     [] c < 33 -> LitT(PickSeq(h1, Literals))
                     [] c < 38 -> LitT(Written(h1))
                     [] c < 43 -> NegT(PickSeq(h1, <<"1", "1.5", "2f32", "0.25">>))
                     [] c < 78 -> LET o == PickSeq(h1, Operators) IN IF o = <<"'">> THEN <<Pn("'", TRUE), <<"i", "a">>>> ELSE OpT(o)
                     [] c < 84 /\ d > 0 -> <<<<"g", "(", Stream(h1, Pick(Split(h, 4), 5), d - 1)>>>>
                     [] c < 91 /\ d > 0 -> <<<<"g", "{", Stream(h1, Pick(Split(h, 4), 6), d - 1)>>>>
                     [] c < 95 /\ d > 0 -> <<<<"g", "[", Stream(h1, Pick(Split(h, 4), 5), d - 1)>>>>
                     [] c < 97 /\ d > 0 -> <<<<"g", "<", Stream(h1, Pick(Split(h, 4), 3), d - 1)>>>>
                     [] OTHER -> Id(PickSeq(h1, Idents))
        IN one \o Stream(Split(h, 2), n - 1, d)
RECURSIVE Nest(_, _)
Nest(h, d) == IF d = 0 THEN Stream(h, 3, 1)
              ELSE Stream(Split(h, 1), Pick(h, 3), 0) \o <<<<"g", PickSeq(Split(h, 5), <<"{", "{", "{", "(", "[">>), Nest(Split(h, 2), d - 1)>>>> \o Stream(Split(h, 3), Pick(h, 2), 0)
RECURSIVE Braces(_)
Braces(d) == IF d = 0 THEN Id("x") ELSE Id("if") \o Id("a") \o <<<<"g", "{", Braces(d - 1)>>>>
\* every pair of tokens of a menu, next to each other
Menu == <<Id("x"), Id("as"), LitT("1"), LitT("1."), LitT("1.5"), NegT("1"), LitT("'c'"), LitT("\"a%20b\""), OpT(<<"<">>), OpT(<<"-">>), OpT(<<">">>), OpT(<<"=">>), OpT(<<"&">>),
          OpT(<<"|">>), OpT(<<".">>), OpT(<<":">>), OpT(<<"/">>), OpT(<<"*">>), OpT(<<"!">>), OpT(<<"+">>), OpT(<<";">>), OpT(<<",">>), OpT(<<"#">>),
          OpT(<<"-", ">">>), OpT(<<"<", "<">>), OpT(<<"=", "=">>), OpT(<<".", ".">>), OpT(<<":", ":">>), OpT(<<"&", "&">>), <<Pn("'", TRUE), <<"i", "a">>>>,
          <<<<"g", "(", Id("y")>>>>, <<<<"g", "{", Id("y")>>>>, <<<<"g", "[", LitT("2")>>>>, <<<<"g", "<", LitT("2")>>>>, <<<<"g", "<", OpT(<<"&">>)>>>>, <<<<"g", "(", <<>>>>>> >>
NM == Len(Menu)
Pair(k) == LET a == Menu[(k % NM) + 1] b == Menu[((k \div NM) % NM) + 1] w == (k \div (NM * NM)) % 2 IN
           IF w = 0 THEN a \o b ELSE <<<<"g", "{", a \o b \o Id("z")>>>>
Pairs == NM * NM * 2
IsSource(k) == k > Pairs /\ k % 4 = 0
Scenario(k) ==
   LET h == H(k) IN
   IF k <= Pairs THEN Pair(k - 1)
   ELSE IF k % 40 = 1 THEN Nest(h, 5 + Pick(Split(h, 9), 60))
   ELSE IF k % 40 = 3 THEN Braces(1 + Pick(Split(h, 9), 120))
   ELSE Stream(h, 1 + Pick(Split(h, 9), 12), 3)
Program(k) == LET h == H(k) IN
   "pub fn f < 'a > (x : & 'a f64 , y : Vec < Vec < f64 > >) -> f64 { let t = (" \o Text(Gen(Split(h, 1), 1 + Pick(Split(h, 2), 4), "full")) \o ") ; if t "
   \o PickSeq(Split(h, 3), <<"<", "==", ">=", ">">>) \o " " \o PickSeq(Split(h, 4), <<"- 1.5", "-1", "- x", "& & y", "* x", "y . 0 . 1", "1. . abs ( )", "- - 2", "1 as f64", "! 0", "..">>)
   \o " { " \o Text(Gen(Split(h, 5), 2, "arith")) \o " } else { match x { 1 => - 2.0 , _ => [ 0 ; 3 ] [ 1 ] } } } "
   \o PickSeq(Split(h, 6), <<"const A : u64 = 1u64 << 52 ;", "impl F for f32 { fn g () { loop { break } } }", "# [doc = \"x\"] struct S < const N : usize > { a : [ f32 ; N ] }",
                             "fn g (v : & mut [ f32 ]) { for i in 0 .. v . len () { v [ i ] = - v [ i ] ; v [ i ] *= - 1.0 } }", "type T = fn (f32) -> f32 ;", "">>)

RECURSIVE Words(_)
WordsOf(t) == CASE t[1] = "g" -> t[2] \o " " \o Words(t[3]) \o ") "
                [] t[1] = "p" -> (IF t[3] THEN "j=" ELSE "p=") \o t[2] \o " "
                [] OTHER -> t[1] \o "=" \o t[2] \o " "
Words(s) == IF s = <<>> THEN "" ELSE WordsOf(Head(s)) \o Words(Tail(s))
Line(k) == IF IsSource(k) THEN ZI(k) \o "\tfmtsrc\t" \o Program(k) ELSE ZI(k) \o "\tfmt\t" \o Words(Scenario(k))

Mod(a, b) == a % b
===============================================================================
