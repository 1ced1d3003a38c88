------------------------------ MODULE ResolverGen ------------------------------
(* Requests for the real table: every single request with every single           *)
(* exclusion, every ordered pair of requests, and random longer ones.            *)
EXTENDS Resolver, Z, Json, TLC
CONSTANTS Seed, N, Chunk, TableFile, ScenFile
VARIABLE i
Table == ndJsonDeserialize(TableFile)
T == Len(Table)
Nm(j) == Table[j].name
Odd == <<"nosuch", "", "SIN", "sin ", "fty2">>   \* names which are not in the table

RandomName(h) == IF Pick(Split(h, 1), 12) = 0 THEN PickSeq(Split(h, 2), Odd) ELSE Nm(Pick(Split(h, 3), T) + 1)
RandomList(h, n) == [j \in 1..n |-> IF j > 1 /\ Pick(Split(h, 90 + j), 8) = 0 THEN RandomName(Split(h, 10)) ELSE RandomName(Split(h, 9 + j))]
Pairs == (T + 1) * (T + 1)
Total == 2 * Pairs + N
Request(k) ==
   LET p == (k - 1) % Pairs
       a == p \div (T + 1)
       b == p % (T + 1)
       h == ZMix(ZMix(Seed, 99), k)
       one(x) == IF x = 0 THEN <<"">> ELSE <<Nm(x)>>
   IN CASE k <= Pairs -> [req |-> one(a), exc |-> one(b)]
        [] k <= 2 * Pairs -> [req |-> one(a) \o one(b), exc |-> <<"">>]
        [] OTHER -> [req |-> RandomList(Split(h, 1), IF Pick(Split(h, 5), 6) = 0 THEN 7 + Pick(Split(h, 2), 50) ELSE 1 + Pick(Split(h, 2), 6)),
                     exc |-> RandomList(Split(h, 3), IF Pick(Split(h, 6), 6) = 0 THEN 7 + Pick(Split(h, 4), 30) ELSE Pick(Split(h, 4), 6))]
RECURSIVE Comma(_, _)
Comma(s, j) == IF j > Len(s) THEN "" ELSE (IF j > 1 THEN "," ELSE "") \o s[j] \o Comma(s, j + 1)
Line(k) == ZI(k) \o "\t" \o Comma(Request(k).req, 1) \o "|" \o Comma(Request(k).exc, 1)
Modulo(a, b) == a % b
Init == i \in {c \in 1..Total : Modulo(c, Chunk) = 1}
Next == /\ i <= Total
        /\ ZEmit(ScenFile, Line(i))
        /\ Modulo(i, Chunk) # 0
        /\ i' = i + 1
===============================================================================
