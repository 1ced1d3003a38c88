------------------------------- MODULE InterpTrace ------------------------------
EXTENDS Interp, Json
CONSTANTS ObsFile, BadFile
VARIABLES i, done
Obs == ndJsonDeserialize(ObsFile)
Why == LET r == Obs[i] IN
       IF r.st \in {"unparsable", "crash", "hang"} THEN r.st
       ELSE IF Mode = "I01" THEN WhyPoints(Points(r.id), r) ELSE WhyTask(Task(r.id), r.src, r.res)
Kind == IF Mode = "I01" THEN ZI(Len(Points(Obs[i].id)[2])) \o " points"
        ELSE LET s == Task(Obs[i].id) IN s[6] \o " " \o s[8] \o (IF Obs[i].st # "ok" THEN "" ELSE " " \o Obs[i].res.st)
Init == i \in 1..Len(Obs) /\ done = FALSE
Next == /\ ~done
        /\ LET w == Why IN IF w = "" THEN ZCount(Kind)
                           ELSE ZEmit(BadFile, ZI(i) \o "\t" \o ZI(Obs[i].id) \o "\t" \o Kind \o "\t" \o w)
        /\ done' = TRUE
        /\ UNCHANGED i
View == <<i, done>>
===============================================================================
