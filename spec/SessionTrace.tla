------------------------------ MODULE SessionTrace -----------------------------
(* Accepts a recorded history exactly when every step is one the Session       *)
(* specification allows; the registers advance by the specification's actions. *)
EXTENDS Session, Json
CONSTANTS N, M, Chunk, ObsFile, BadFile
VARIABLES i,        \* which history
          k,        \* how many of its steps have been accepted; -1: not yet looked at
          ops,      \* the operations of the history
          terms,    \* the terms algebra prescribes
          trees     \* the syntax trees observed
vars == <<i, k, ops, terms, trees>>

G == INSTANCE SessionGen WITH ScenFile <- ""
Obs == ndJsonDeserialize(ObsFile)
Dead == <<"none">>
Bad(why) == ZEmit(BadFile, ZI(i) \o "\t" \o ZI(Obs[i].id) \o "\t" \o ZI(k) \o "\t" \o why)

Init == /\ i \in 1..Len(Obs)
        /\ k = -1
        /\ ops = <<>>
        /\ terms = <<>>
        /\ trees = <<>>

\* The record is one of the history with this number, with a report for every operation.
Load == /\ k = -1
        /\ LET h == IF G!Excluded(G!History(Obs[i].id)) THEN << <<"P", X>> >> ELSE G!History(Obs[i].id) IN
           IF Obs[i].st = "ok" /\ Len(Obs[i].steps) = Len(h)
           THEN k' = 0 /\ ops' = h /\ UNCHANGED <<i, terms, trees>>
           ELSE Bad("history: " \o Obs[i].st) /\ FALSE

Uses(op) == CASE op[1] = "P" -> {}
              [] op[1] \in {"+", "-", "*", "/"} -> {op[2], op[3]}
              [] op[1] = "S" -> {op[2]} \union {op[3][j][2] : j \in 1..Len(op[3])}
              [] OTHER -> {op[2]}

Advance(term, tree) == /\ k' = k + 1
                       /\ terms' = Append(terms, term)
                       /\ trees' = Append(trees, tree)
                       /\ UNCHANGED <<i, ops>>
                       /\ k + 1 = Len(ops) => ZCount("history")

\* One operation of the specification, with the observed result.
Step ==
   /\ k >= 0
   /\ k < Len(ops)
   /\ LET op == ops[k + 1]
          got == Obs[i].steps[k + 1]
          dead == \E r \in Uses(op) : trees[r + 1] = Dead
          want == After(op, terms)
          why == Problem(op, trees, terms, got)
          approximate == op[1] = "N" \/ (op[1] = "/" /\ IsNum(trees[op[2] + 1]) /\ IsNum(trees[op[3] + 1]))
      IN IF dead
         THEN IF got.st = "skip" THEN Advance(X, Dead)
              ELSE Bad("an operation on a refused expression") /\ FALSE
         ELSE IF op[1] # "P" /\ MayRefuse(op, trees, got)
         THEN ZCount("refused " \o op[1]) /\ Advance(X, Dead)
         ELSE IF why # "" THEN Bad(why) /\ FALSE
         \* number types and quotients of literals approximate: go on from what was observed
         ELSE ZCount("step " \o op[1]) /\ Advance(IF approximate THEN got.ast ELSE want, got.ast)

Next == Load \/ Step
View == <<i, k>>
===============================================================================
