------------------------------- MODULE ResolverMC ------------------------------
(* The machine on every table of K entries, every request and every exclusion:  *)
(* whatever order pending names are taken in, it stops, and with exactly the     *)
(* reachable entries.                                                            *)
EXTENDS Resolver, TLC
CONSTANT K
Node == 1..K
VARIABLES deps, req, exc, s
vars == <<deps, req, exc, s>>

SeqOf(set) == LET RECURSIVE F(_)
                  F(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o F(S \ {x}) IN F(set)
Table == [j \in Node |-> [name |-> j, deps |-> SeqOf(deps[j])]]
\* a request may name something that does not exist
Init == /\ deps \in [Node -> SUBSET Node]
        /\ req \in SUBSET (Node \union {K + 1})
        /\ exc \in SUBSET Node
        /\ s = [todo |-> req, done |-> {}]
Next == \E n \in s.todo : s' = Take(Table, exc, s, n) /\ UNCHANGED <<deps, req, exc>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Outcome == s.todo = {} => s.done = Selected(Table, SeqOf(req), exc)
NothingExcluded == s.done \intersect exc = {}
OnlyReachable == s.done \subseteq Selected(Table, SeqOf(req), exc)
\* an independent statement of reachability: through paths
Path(a, b) == LET RECURSIVE R(_, _)
                  R(x, seen) == \/ x = b
                                \/ \E y \in (deps[x] \ (seen \union exc)) : R(y, seen \union {y}) IN R(a, {a})
ReachableByPaths == s.todo = {} => s.done = {b \in (Node \ exc) : \E a \in (req \intersect (Node \ exc)) : Path(a, b)}
Stops == <>(s.todo = {})
===============================================================================
