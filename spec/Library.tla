-------------------------------- MODULE Library --------------------------------
(***************************************************************************)
(* A generated library is self-contained. A record describes one library:  *)
(* the request, the items it defines in order and the names each uses, and *)
(* whether a compiler accepts it. The language is Rust, Rust with tests    *)
(* ("tests"), or C.                                                        *)
(***************************************************************************)
EXTENDS Resolver, Z, Json, TLC
CONSTANTS Seed, N, TableFile, ObsFile, BadFile, ScenFile
VARIABLES i, done
Table == ndJsonDeserialize(TableFile)
T == Len(Table)
Obs == ndJsonDeserialize(ObsFile)

\* Requests: every entry on its own, then random lists.
Request(k) == IF k <= T THEN <<Table[k].name>>
              ELSE LET h == ZMix(ZMix(Seed, 321), k) IN
                   [j \in 1..(2 + IF Pick(Split(h, 99), 5) = 0 THEN 4 + Pick(Split(h, 1), 30) ELSE Pick(Split(h, 1), 4)) |-> Table[Pick(Split(h, 1 + j), T) + 1].name]
RECURSIVE Comma(_, _)
Comma(s, j) == IF j > Len(s) THEN "" ELSE (IF j > 1 THEN "," ELSE "") \o s[j] \o Comma(s, j + 1)
GenInit == i = 1 /\ done = FALSE
GenNext == i <= T + N /\ ZEmit(ScenFile, ZI(i) \o "\t" \o Comma(Request(i), 1)) /\ i' = i + 1 /\ UNCHANGED done

\* Functions with a tuple result have no C form.
NoCForm == {"sin_cos"}
\* Names the language provides.
Builtin == {"f32", "f64", "u32", "u64", "i32", "i64", "bool", "usize", "Self", "std", "core"}
Rec == Obs[i]
Sel == Selected(Table, Request(Rec.req), {})
Emitted == {Table[j].name : j \in {j \in Sel : Table[j].gen}}
AllNames == {Table[j].name : j \in 1..T}
Defined == {Rec.items[j].name : j \in 1..Len(Rec.items)}
Uses == UNION {Range(Rec.items[j].uses) : j \in 1..Len(Rec.items)}
Why ==
   CASE Rec.rc # 0 -> "the generator failed"
     [] Rec.language # "c" /\ Rec.st # "ok" -> "the text is not Rust"
     [] Rec.language # "c" /\ Cardinality(Defined) # Len(Rec.items) -> "a name is defined twice"
     [] Rec.language # "c" /\ (Uses \intersect AllNames) \ Defined # {} -> "a name is used but not defined"
     \* pnorm has no code yet; every other entry defines its name
     [] Rec.language # "c" /\ ~((Emitted \ {"pnorm"}) \subseteq Defined) -> "a selected entry is not defined"
     [] Rec.language = "c" /\ Emitted \intersect NoCForm # {} -> ""
     [] ~Rec.compiles -> "the compiler rejects it"
     [] OTHER -> ""
Init == i \in 1..Len(Obs) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ ZCount(Rec.language \o " library")
        /\ (Why = "" \/ ZEmit(BadFile, ZI(i) \o "\t" \o ZI(Rec.id) \o "\t" \o Rec.language \o "\t" \o Why))
View == <<i, done>>
===============================================================================
