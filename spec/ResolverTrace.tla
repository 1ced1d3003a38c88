----------------------------- MODULE ResolverTrace -----------------------------
(* Each recorded answer of the code is the one the specification gives.          *)
(*   kind "resolve": names selected for request id                               *)
(*   kind "cli": text printed for a request; it is the texts of the selected     *)
(*               entries one after the other                                     *)
EXTENDS Resolver, Z, Json, TLC
CONSTANTS Seed, N, TableFile, ObsFile, BadFile
VARIABLES i, done
G == INSTANCE ResolverGen WITH Chunk <- 1, ScenFile <- ""
Table == G!Table
Obs == ndJsonDeserialize(ObsFile)
Rec == Obs[i]

\* A group promises its members.
Groups == <<
   <<"invtrig", <<"asin", "acos", "atan", "atan2">> >>,
   <<"trig", <<"sin", "cos", "tan", "invtrig">> >>,
   <<"invhyperbolic", <<"asinh", "acosh", "atanh">> >>,
   <<"hyperbolic", <<"sinh", "cosh", "tanh", "invhyperbolic">> >>,
   <<"logexp", <<"exp2", "exp", "exp_m1", "log2", "ln_1p", "ln", "log10", "log", "powf", "powi">> >>,
   <<"recip_sqrt", <<"recip", "sqrt", "cbrt">> >>,
   <<"libm", <<"logexp", "trig", "hyperbolic", "recip_sqrt">> >>,
   <<"normal", <<"rnorm", "dnorm", "pnorm", "qnorm">> >>,
   <<"stats", <<"normal">> >>,
   <<"all", <<"stats", "libm">> >> >>
Member(g) == LET c == CHOOSE c \in Range(Groups) : c[1] = g IN Range(c[2])

RECURSIVE Concat(_, _, _)
Concat(texts, sel, j) == IF j > Len(Table) THEN "" ELSE (IF j \in sel THEN texts[j] ELSE "") \o Concat(texts, sel, j + 1)
Pieces == ndJsonDeserialize(TableFile)   \* entries also carry their own text at either width

Why ==
   CASE Rec.kind = "table" ->
          \* the table itself: known names once, dependencies exist, groups hold their members
          LET j == Find(Table, Rec.name) IN
          CASE \E k \in 1..Len(Table) : k # j /\ Table[k].name = Rec.name -> "two entries with one name"
            [] \E d \in Range(Table[j].deps) : Find(Table, d) = 0 -> "a dependency is not in the table"
            [] (\E c \in Range(Groups) : c[1] = Rec.name) /\ ~(Member(Rec.name) \subseteq Range(Table[j].deps)) -> "a group lacks a member"
            [] Range(Table[j].deps) # Range(Rec.deps) -> "corrupted"
            [] OTHER -> ""
     [] Rec.kind = "resolve" ->
          LET r == G!Request(Rec.req) IN
          IF Rec.got = Answer(Table, r.req, Range(r.exc)) THEN "" ELSE "selected entries"
     [] Rec.kind = "cli" ->
          LET r == G!Request(Rec.req)
              sel == Selected(Table, r.req, Range(r.exc))
              texts == [j \in 1..Len(Table) |-> IF Rec.bits = 32 THEN Pieces[j].text32 ELSE Pieces[j].text64]
          IN CASE Rec.rc # 0 -> "the generator failed"
               [] Rec.out # Concat(texts, sel, 1) -> "emitted text"
               [] OTHER -> ""
Init == i \in 1..Len(Obs) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ ZCount(Rec.kind)
        /\ (Why = "" \/ ZEmit(BadFile, ZI(i) \o "\t" \o ZI(Rec.id) \o "\t\t" \o Why))
View == <<i, done>>
===============================================================================
