------------------------------- MODULE SessionMC -------------------------------
(***************************************************************************)
(* The design of the session machine, explored exhaustively: every history *)
(* of at most Depth operations from the starting expressions. The          *)
(* invariants state that what Session.tla demands of the code is           *)
(* achievable and consistent: reference algorithms for expansion and       *)
(* grouping meet the demands, and substitution on syntax is rebinding of   *)
(* names in the meaning.                                                   *)
(***************************************************************************)
EXTENDS Session
CONSTANT Depth
VARIABLE regs

\* Expansion as sequences of signed products.
Neg1(m) == <<-m[1], m[2]>>
RECURSIVE Monomials(_)
RECURSIVE Cross(_, _, _, _)
Cross(a, b, j, k) == IF j > Len(a) THEN <<>>
                     ELSE IF k > Len(b) THEN Cross(a, b, j + 1, 1)
                     ELSE << <<a[j][1] * b[k][1], a[j][2] \o b[k][2]>> >> \o Cross(a, b, j, k + 1)
Monomials(t) ==
   CASE t[1] = "p" -> Monomials(t[2])
     [] t[1] = "u" /\ t[2] = "-" -> LET m == Monomials(t[3]) IN [j \in 1..Len(m) |-> Neg1(m[j])]
     [] IsSum(t) -> LET r == Monomials(t[4]) IN
                    Monomials(t[3]) \o (IF t[2] = "+" THEN r ELSE [j \in 1..Len(r) |-> Neg1(r[j])])
     [] IsProd(t) -> Cross(Monomials(t[3]), Monomials(t[4]), 1, 1)
     [] OTHER -> << <<1, <<t>> >> >>
RECURSIVE Product(_, _)
Product(fs, j) == IF j = 1 THEN (IF IsOp(fs[1]) THEN <<"p", fs[1]>> ELSE fs[1])
                  ELSE <<"o", "*", Product(fs, j - 1), IF IsOp(fs[j]) THEN <<"p", fs[j]>> ELSE fs[j]>>
RECURSIVE Total(_, _)
Total(ms, j) ==
   LET f == Product(ms[j][2], Len(ms[j][2])) IN
   IF j = 1 THEN (IF ms[1][1] = 1 THEN f ELSE <<"u", "-", f>>)
   ELSE <<"o", IF ms[j][1] = 1 THEN "+" ELSE "-", Total(ms, j - 1), f>>
ExpandRef(t) == LET m == Monomials(t) IN Total(m, Len(m))

RECURSIVE GroupRef(_)
Wrap(t) == IF IsOp(t) THEN <<"p", t>> ELSE t
GroupRef(t) ==
   CASE t[1] = "o" -> <<"o", t[2], Wrap(GroupRef(t[3])), Wrap(GroupRef(t[4]))>>
     [] t[1] = "u" -> <<"u", t[2], Wrap(GroupRef(t[3]))>>
     [] t[1] = "p" -> <<"p", GroupRef(t[2])>>
     [] t[1] = "m" -> <<"m", t[2], GroupRef(t[3]), [j \in 1..Len(t[4]) |-> GroupRef(t[4][j])]>>
     [] t[1] = "f" -> <<"f", t[2], GroupRef(t[3])>>
     [] OTHER -> t

Init == \E s \in 1..Len(Starts) : regs = <<Starts[s][1], Starts[s][2]>>
Next == /\ Len(regs) < 2 + Depth
        /\ \E j \in 1..NMenu :
             LET op == Menu(Len(regs) - 1, Len(regs) - 2)[j]
                 t == After(op, regs) IN
             /\ Size(t) <= 150
             /\ regs' = Append(regs, IF op[1] = "E" THEN ExpandRef(t) ELSE IF op[1] = "(" THEN GroupRef(t) ELSE t)

Newest == regs[Len(regs)]
Before == regs[Len(regs) - 1]
SubstitutionIsRebinding ==
   \A k \in Envs : Den(Sub(Newest, << <<"x", Before>>, <<"y", X>>, <<"x", Y>> >>), k, <<>>)
                   = Den(Newest, k, << <<"x", Den(Before, k, <<>>)>>, <<"y", Den(X, k, <<>>)>> >>)
ExpansionAchievable == Summands(Newest) <= 24 => LET e == ExpandRef(Newest) IN
   Same(e, Newest) /\ SumOfProducts(e) /\ Opaque(e) = Opaque(Newest)
GroupingAchievable == LET g == GroupRef(Newest) IN
   Same(g, Newest) /\ FullyGrouped(g) /\ GroupRef(g) = g /\ Bare(g) = Bare(Newest)
\* Simultaneous substitution is not sequential substitution, and the order of bindings matters only for repeats.
OrderOfBindings ==
   Same(Sub(Newest, << <<"x", Before>>, <<"y", Two>> >>), Sub(Newest, << <<"y", Two>>, <<"x", Before>> >>))
===============================================================================
