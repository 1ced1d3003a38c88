-------------------------------- MODULE Resolver -------------------------------
(***************************************************************************)
(* Selection of table entries for a request.                               *)
(*                                                                         *)
(* The table is a sequence of entries [name, gen, deps]; a request is a    *)
(* sequence of names, and so is the list of exclusions. The machine keeps  *)
(* a bag of names still to be looked at and the set of entries selected;   *)
(* every step takes any of the pending names. Whatever the order, it ends  *)
(* with the entries reachable from the request through dependencies        *)
(* without passing through an excluded name; the answer lists them in the  *)
(* order of the table.                                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Range(s) == {s[j] : j \in 1..Len(s)}
\* The entry with a name: the first one.
Find(table, n) == IF \E j \in 1..Len(table) : table[j].name = n
                  THEN CHOOSE j \in 1..Len(table) : table[j].name = n /\ \A k \in 1..(j - 1) : table[k].name # n
                  ELSE 0

\* The machine.
Start(req) == [todo |-> Range(req), done |-> {}]
Take(table, exc, s, n) ==
   LET j == Find(table, n) IN
   IF n \in exc \/ j = 0 \/ j \in s.done THEN [s EXCEPT !.todo = @ \ {n}]
   ELSE [todo |-> (s.todo \ {n}) \union Range(table[j].deps), done |-> s.done \union {j}]

\* Its outcome, as reachability: the least set closed under the dependencies.
RECURSIVE Close(_, _, _)
Close(table, exc, set) ==
   LET more == set \union ({Find(table, n) : n \in ((UNION {Range(table[j].deps) : j \in set}) \ exc)} \ {0})
   IN IF more = set THEN set ELSE Close(table, exc, more)
Selected(table, req, exc) == Close(table, exc, {Find(table, n) : n \in (Range(req) \ exc)} \ {0})

RECURSIVE InOrder(_, _, _)
InOrder(table, set, j) == IF j > Len(table) THEN <<>>
                          ELSE (IF j \in set THEN <<table[j].name>> ELSE <<>>) \o InOrder(table, set, j + 1)
Answer(table, req, exc) == InOrder(table, Selected(table, req, exc), 1)
===============================================================================
