------------------------------- MODULE TokensTrace ------------------------------
(* The reader: it holds what is left of the two lists of lexemes and accepts    *)
(* the record when it has read both to their ends, lexeme by lexeme equal.      *)
EXTENDS Tokens, Json
CONSTANTS ObsFile, BadFile
VARIABLES i, left, right, at
Obs == ndJsonDeserialize(ObsFile)
Rec == Obs[i]
Bad(why) == ZEmit(BadFile, ZI(i) \o "\t" \o ZI(Rec.id) \o "\t" \o ZI(at) \o "\t" \o why)
Init == i \in 1..Len(Obs) /\ left = <<>> /\ right = <<>> /\ at = -1
Load == /\ at = -1
        /\ IF Rec.st # "ok" THEN Bad("no text: " \o Rec.st) /\ FALSE
           ELSE IF ~IsSource(Rec.id) /\ Rec.src # Scenario(Rec.id) THEN Bad("another stream was formatted") /\ FALSE
           ELSE TRUE
        /\ left' = Reads(Rec.src)
        /\ right' = Reads(Rec.re)
        /\ at' = 1
        /\ UNCHANGED i
Read == /\ at >= 1
        /\ at <= Len(left)
        /\ IF at > Len(right) \/ left[at] # right[at] THEN Bad("another token") /\ FALSE ELSE ZCount(left[at][1])
        /\ at' = at + 1
        /\ UNCHANGED <<i, left, right>>
End == /\ at > Len(left)
       /\ Len(right) > Len(left)
       /\ Bad("a token too many")
       /\ FALSE
       /\ UNCHANGED <<i, left, right, at>>
Next == Load \/ Read \/ End
View == <<i, at>>
===============================================================================
