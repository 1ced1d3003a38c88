---------------------------------- MODULE Calls ----------------------------------
(***************************************************************************)
(* Files that call the functions of the mathematics library (C01).         *)
(***************************************************************************)
EXTENDS Programs, MathFn
Methods == <<"sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp", "exp2", "exp_m1", "ln", "log2", "log10", "ln_1p", "powf",
             "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "cbrt", "hypot", "sqrt">>
Two == {"atan2", "powf", "hypot"}
MethodOf(k) == Methods[(k % Len(Methods)) + 1]
WidthOf(k) == IF (k \div Len(Methods)) % 2 = 0 THEN 32 ELSE 64
Arity(m) == IF m \in Two THEN 2 ELSE 1
X == <<"var", "x">>
Y == <<"var", "y">>
Recv(h, t) ==
   LET L(x) == <<"lit", x, t>> c == Pick(h, 7) IN
   CASE c = 0 -> X
     [] c = 1 -> <<"par", <<"bin", "*", X, L("0.3")>>>>
     [] c = 2 -> <<"met", "abs", X, <<>>>>
     [] c = 3 -> <<"par", <<"if", <<"bin", "<", X, L("0.7")>>, <<<<>>, X>>, <<<<>>, <<"bin", "+", Y, L("0.1")>>>>>>>>
     [] c = 4 -> <<"par", <<"un", "-", X>>>>
     [] c = 5 -> <<"par", <<"bin", "+", X, Y>>>>
     [] OTHER -> <<"lit", "0.7" \o t, t>>
ArgE(h, t) == LET c == Pick(h, 3) IN CASE c = 0 -> Y [] c = 1 -> <<"lit", "1.3", t>> [] OTHER -> <<"bin", "-", Y, <<"lit", "0.2", t>>>>
CallOf(k) == LET m == MethodOf(k) h == H(k) t == IF WidthOf(k) = 32 THEN "f32" ELSE "f64" IN
             <<"met", m, Recv(Split(h, 1), t), IF Arity(m) = 2 THEN <<ArgE(Split(h, 2), t)>> ELSE <<>>>>
\* the value, and whether it is a number of the file's type
CallProgram(k) ==
   LET t == IF WidthOf(k) = 32 THEN "f32" ELSE "f64"
       c == CallOf(k)
       ps == <<<<"x", "fty", t>>, <<"y", "fty", t>>>>
       n == "f" \o ZI(k)
   IN [w |-> WidthOf(k), consts |-> <<>>, env |-> <<>>,
       fns |-> <<<<n \o "_1", ps, t, "fty", <<<<>>, c>>>>,
                 <<n \o "_2", ps, "bool", "bool", <<<<>>, <<"bin", "==", c, <<"cast", "fty", t, <<"par", c>>>>>>>>>>,
                 <<n \o "_3", ps, "bool", "bool", <<<<<<"let", "log", "", FALSE, c>>>>, <<"bin", "==", <<"var", "log">>, <<"cast", "fty", t, c>>>>>>>>>>]
Tries2 == 12
ArgBits(h, b) ==
   LET c == Pick(h, 10) h1 == Split(h, 1) IN
   CASE c < 4 -> PickSeq(h1, <<OfInt(1, b), OfInt(-1, b), OfInt(2, b), NearestDec("5", 1, b), NearestDec("-5", 1, b), NearestDec("999", 3, b), OfInt(3, b), NearestDec("-15", 1, b), OfInt(10, b)>>)
     [] OTHER -> Nearest(IF Pick(Split(h, 2), 2) = 0 THEN ZRandBits(h1, 24) ELSE ZNeg(ZRandBits(h1, 24)), ZPow2(20 + Pick(Split(h, 3), 8)), b)
ArgsFor(k) == LET b == WidthOf(k) IN [n \in 1..Tries2 |-> <<ArgBits(Split(H(k), 10 * n), b), ArgBits(Split(H(k), 10 * n + 1), b)>>]
CallList(k) == LET t == IF WidthOf(k) = 32 THEN "f32" ELSE "f64" a == ArgsFor(k) IN
               [n \in 1..3 * Tries2 |-> LET j == ((n - 1) \div 3) + 1 IN <<((n - 1) % 3) + 1, <<<<t, a[j][1]>>, <<t, a[j][2]>>>>>>]
Places == 260
Ulps == 4
\* Rust computes these itself, by formulas that cancel
Loose == 1000000
===============================================================================
