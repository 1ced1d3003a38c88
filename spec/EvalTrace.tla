------------------------------- MODULE EvalTrace -------------------------------
(* Evaluates the nodes of each recorded expression bottom up, accepting a node  *)
(* exactly when the Eval specification allows its result.                       *)
EXTENDS Eval, Json
CONSTANTS Seed, Mode, Count, Chunk, ObsFile, BadFile
VARIABLES i,        \* which record
          k,        \* how many of its nodes have been accepted; -1: not yet looked at
          scn,      \* the digits and the term of the scenario
          terms,    \* the terms of the nodes
          vals      \* and their values
G == INSTANCE EvalGen WITH ScenFile <- ""
Obs == ndJsonDeserialize(ObsFile)
Rec == Obs[i]
Bad(why) == ZEmit(BadFile, ZI(i) \o "\t" \o ZI(Rec.id) \o "\t" \o ZI(k) \o "\t" \o why)
Init == i \in 1..Len(Obs) /\ k = -1 /\ scn = <<>> /\ terms = <<>> /\ vals = <<>>

Val(n) == CASE n.st = "err" -> <<"err">>
            [] n.st # "ok" -> <<n.st>>
            [] n.v[1] = "n" -> LitValue(n.v[2])
            [] n.v[1] = "b" -> <<"b", n.v[2]>>
            [] n.v[1] = "s" -> <<"s">>
            [] OTHER -> <<"other">>
\* The term of a node, its operands being nodes listed before it.
TermOf(t) == CASE t[1] \in {"p", "g"} -> <<t[1], terms[t[2] + 1]>>
               [] t[1] = "u" -> <<"u", t[2], terms[t[3] + 1]>>
               [] t[1] = "o" -> <<"o", t[2], terms[t[3] + 1], terms[t[4] + 1]>>
               [] t[1] = "m" -> <<"m", t[2], terms[t[3] + 1], [j \in 1..Len(t[4]) |-> terms[t[4][j] + 1]]>>
               [] OTHER -> t
KidVals(t) == CASE t[1] \in {"p", "g"} -> <<vals[t[2] + 1]>>
                [] t[1] = "u" -> <<vals[t[3] + 1]>>
                [] t[1] = "o" -> <<vals[t[3] + 1], vals[t[4] + 1]>>
                [] t[1] = "m" -> <<vals[t[3] + 1]>> \o [j \in 1..Len(t[4]) |-> vals[t[4][j] + 1]]
                [] OTHER -> <<>>

Rounded == /\ k = -1
           /\ G!IsRounding(Rec.id)
           /\ LET r == G!Rounding(Rec.id)
                  z == ZDec(r[1])
                  got == Val(Rec)
              IN IF Rec.st = "ok" /\ Number(got) /\ DEq(got, Round(N(z[1], z[2]), r[2]))
                 THEN ZCount(IF z[2] <= r[2] THEN "already round" ELSE "rounded")
                 ELSE Bad("rounding") /\ FALSE
           /\ FALSE
Load == /\ k = -1
        /\ ~G!IsRounding(Rec.id)
        /\ IF Rec.st = "ok" THEN TRUE ELSE Bad("evaluation: " \o Rec.st) /\ FALSE
        /\ k' = 0
        /\ scn' = G!Term(Rec.id)
        /\ UNCHANGED <<i, terms, vals>>
Step == /\ k >= 0
        /\ k < Len(Rec.nodes)
        /\ LET n == Rec.nodes[k + 1]
               v == Val(n)
               why == WhyNode(n.t, KidVals(n.t), scn[1], v)
           IN IF why # "" THEN Bad(why) /\ FALSE
              ELSE /\ terms' = Append(terms, TermOf(n.t))
                   /\ vals' = Append(vals, v)
                   /\ ZCount(CASE v[1] = "err" -> "error at " \o n.t[1]
                               [] n.t[1] \in {"m", "o", "u"} -> n.t[2]
                               [] OTHER -> "leaf")
        /\ k' = k + 1
        /\ UNCHANGED <<i, scn>>
\* The nodes make up the expression of the scenario.
Done == /\ k > 0
        /\ k = Len(Rec.nodes)
        /\ Bare(terms[k]) # Bare(scn[2])
        /\ Bad("another expression was evaluated")
        /\ FALSE
        /\ UNCHANGED <<i, k, scn, terms, vals>>
Empty == /\ k = 0
         /\ Len(Rec.nodes) = 0
         /\ Bad("no node")
         /\ FALSE
         /\ UNCHANGED <<i, k, scn, terms, vals>>
Next == Rounded \/ Load \/ Step \/ Done \/ Empty
View == <<i, k>>
===============================================================================
