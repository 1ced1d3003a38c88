------------------------------- MODULE LanesTrace --------------------------------
(* The machine applies the functions of a translated file to vectors: all lanes  *)
(* take a statement together, each in its own environment, and the recorded      *)
(* lanes are read when the function returns.                                     *)
EXTENDS Lanes, Json
CONSTANTS ObsFile, BadFile
VARIABLES i, P, calls, n, pc, envs
Obs == ndJsonDeserialize(ObsFile)
Rec == Obs[i]
Bad(why) == ZEmit(BadFile, ZI(i) \o "\t" \o ZI(Rec.id) \o "\t" \o ZI(n) \o "\t" \o why)
Init == i \in 1..Len(Obs) /\ P = <<>> /\ calls = <<>> /\ n = -1 /\ pc = 0 /\ envs = <<>>
Lanes == LaneCount(Rec.id)
Enter(p, cs, m) == IF m > Len(cs) THEN <<>> ELSE [j \in 1..Lanes |-> CallEnv(p, p.fns[cs[m][1]], cs[m][2][j])]
Load == /\ n = -1
        /\ IF Rec.st # "ok" THEN Bad(Rec.st) /\ FALSE ELSE TRUE
        /\ P' = TLCEval(LProgram(Rec.id))
        /\ calls' = TLCEval(Vectors(P', Rec.id))
        /\ IF Len(Rec.r) # Lanes * Len(calls') THEN Bad("another number of results") /\ FALSE ELSE TRUE
        /\ n' = 1
        /\ pc' = 1
        /\ envs' = TLCEval(Enter(P', calls', 1))
        /\ UNCHANGED i
Body == LET b == P.fns[calls[n][1]][5] IN <<Hoisted(b[1]), b[2]>>
Step == /\ n >= 1
        /\ n <= Len(calls)
        /\ pc <= Len(Body[1])
        /\ envs' = TLCEval([j \in 1..Lanes |-> RunS(P, Body[1][pc], envs[j], TRUE)])
        /\ ZCount("statement " \o Body[1][pc][1])
        /\ pc' = pc + 1
        /\ UNCHANGED <<i, P, calls, n>>
Equal(v, got) == IF v[2] = "nan" \/ got = "nan" THEN v[2] = got ELSE ZEq(v[2], got)
Return == /\ n >= 1
          /\ n <= Len(calls)
          /\ pc > Len(Body[1])
          /\ LET v == TLCEval([j \in 1..Lanes |-> Val(P, Body[2], envs[j], TRUE)])
                 at == (n - 1) * Lanes
                 who == P.fns[calls[n][1]][1]
             IN /\ IF \E j \in 1..Lanes : ~Equal(v[j], Rec.r[at + j]) THEN Bad("a lane of " \o who \o " has another value") /\ FALSE ELSE TRUE
                /\ IF Rec.rust # <<>> /\ (\E j \in 1..Lanes : ~Equal(v[j], Rec.rust[at + j])) THEN Bad("oracle: rust and the specification differ") /\ FALSE ELSE TRUE
                /\ ZCount("returned " \o v[1][1] \o " in " \o ZI(Lanes) \o " lanes")
          /\ n' = n + 1
          /\ pc' = 1
          /\ envs' = TLCEval(Enter(P, calls, n + 1))
          /\ UNCHANGED <<i, P, calls>>
Next == Load \/ Step \/ Return
View == <<i, n, pc>>
===============================================================================
