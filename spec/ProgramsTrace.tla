------------------------------ MODULE ProgramsTrace ------------------------------
(* The machine runs every call of a translated program, one statement of the    *)
(* called function after another, and reads the recorded result when it         *)
(* returns. Two runs go side by side, one with fused multiply-adds (Rust) and   *)
(* one without: C may do either.                                                *)
EXTENDS Programs, Json
CONSTANTS ObsFile, BadFile
VARIABLES i, P, calls, n, pc, env, loose
Obs == ndJsonDeserialize(ObsFile)
Rec == Obs[i]
vars == <<i, P, calls, n, pc, env, loose>>
Bad(why) == ZEmit(BadFile, ZI(i) \o "\t" \o ZI(Rec.id) \o "\t" \o ZI(n) \o "\t" \o why)
Init == i \in 1..Len(Obs) /\ P = <<>> /\ calls = <<>> /\ n = -1 /\ pc = 0 /\ env = <<>> /\ loose = <<>>
\* entering call m
Enter(p, cs, m) == IF m > Len(cs) THEN <<>> ELSE CallEnv(p, p.fns[cs[m][1]], cs[m][2])
Load == /\ n = -1
        /\ IF Rec.st # "ok" THEN Bad(Rec.st) /\ FALSE ELSE TRUE
        /\ P' = TLCEval(ProgramOf(Rec.id))
        /\ calls' = TLCEval(AllCalls(P', Rec.id, 1))
        /\ IF Len(Rec.c) # Len(calls') THEN Bad("another number of results") /\ FALSE ELSE TRUE
        /\ n' = 1
        /\ pc' = 1
        /\ env' = Enter(P', calls', 1)
        /\ loose' = env'
        /\ UNCHANGED i
Body == LET b == P.fns[calls[n][1]][5] IN <<Hoisted(b[1]), b[2]>>
Step == /\ n >= 1
        /\ n <= Len(calls)
        /\ pc <= Len(Body[1])
        /\ env' = TLCEval(RunS(P, Body[1][pc], env, TRUE))
        /\ loose' = TLCEval(RunS(P, Body[1][pc], loose, FALSE))
        /\ ZCount("statement " \o Body[1][pc][1])
        /\ pc' = pc + 1
        /\ UNCHANGED <<i, P, calls, n>>
Equal(v, got) == IF v[2] = "nan" \/ got = "nan" THEN v[2] = got ELSE ZEq(v[2], got)
Return == /\ n >= 1
          /\ n <= Len(calls)
          /\ pc > Len(Body[1])
          /\ LET f == TLCEval(Val(P, Body[2], env, TRUE))
                 u == TLCEval(Val(P, Body[2], loose, FALSE))
                 who == P.fns[calls[n][1]][1]
             IN /\ IF ~Equal(f, Rec.c[n]) /\ ~Equal(u, Rec.c[n]) THEN Bad("the C function " \o who \o " returned another value") /\ FALSE ELSE TRUE
                /\ IF Rec.rust # <<>> /\ ~Equal(f, Rec.rust[n]) THEN Bad("oracle: rust " \o Rec.rust[n] \o " specification " \o f[2]) /\ FALSE ELSE TRUE
                /\ ZCount("returned " \o f[1])
          /\ n' = n + 1
          /\ pc' = 1
          /\ env' = Enter(P, calls, n + 1)
          /\ loose' = env'
          /\ UNCHANGED <<i, P, calls>>
Next == Load \/ Step \/ Return
View == <<i, n, pc>>
===============================================================================
