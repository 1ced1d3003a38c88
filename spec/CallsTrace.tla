------------------------------- MODULE CallsTrace --------------------------------
(* For each argument pair, three results: the value of the method, and twice    *)
(* that it has the type of the file.                                            *)
EXTENDS Calls, Json
CONSTANTS ObsFile, BadFile
VARIABLES i, P, calls, n
Obs == ndJsonDeserialize(ObsFile)
Rec == Obs[i]
Bad(why) == ZEmit(BadFile, ZI(i) \o "\t" \o ZI(Rec.id) \o "\t" \o ZI(n) \o "\t" \o why)
Init == i \in 1..Len(Obs) /\ P = <<>> /\ calls = <<>> /\ n = -1
Load == /\ n = -1
        /\ IF Rec.st # "ok" THEN Bad(Rec.st) /\ FALSE ELSE TRUE
        /\ P' = TLCEval(CallProgram(Rec.id))
        /\ calls' = TLCEval(CallList(Rec.id))
        /\ IF Len(Rec.c) # Len(calls') THEN Bad("another number of results") /\ FALSE ELSE TRUE
        /\ n' = 1
        /\ UNCHANGED i
Truth(c, args) ==
   LET b == P.w
       env == CallEnv(P, P.fns[1], args)
       x == TLCEval(Val(P, c[3], env, TRUE))
       y == TLCEval(IF c[4] = <<>> THEN <<"", "0">> ELSE Val(P, c[4][1], env, TRUE))
   IN Real(c[2], x[2], y[2], b, Places)
Judge(got, rust, truth, who) ==
   /\ IF ~Near(got, truth, Ulps, P.w, Places) THEN Bad("the C function " \o who \o " returned another value") /\ FALSE ELSE TRUE
   /\ IF rust # "" /\ ~Near(rust, truth, IF who \in {"asinh", "acosh", "atanh"} THEN Loose ELSE Ulps, P.w, Places) THEN Bad("oracle: rust " \o rust) /\ FALSE ELSE TRUE
Check == /\ n >= 1
         /\ n <= Len(calls)
         /\ LET c == TLCEval(CallOf(Rec.id))
                truth == TLCEval(Truth(c, calls[n][2]))
                yes == IF truth[1] = "nan" THEN "0" ELSE "1"
            IN /\ Judge(Rec.c[n], IF Rec.rust = <<>> THEN "" ELSE Rec.rust[n], truth, c[2])
               /\ IF truth[1] # "skip" /\ (Rec.c[n + 1] # yes \/ Rec.c[n + 2] # yes)
                  THEN Bad("the C function " \o c[2] \o " has another type") /\ FALSE ELSE TRUE
               /\ ZCount(c[2] \o " " \o truth[1])
         /\ n' = n + 3
         /\ UNCHANGED <<i, P, calls>>
Next == Load \/ Check
View == <<i, n>>
===============================================================================
