------------------------------ MODULE NumbersTrace ------------------------------
EXTENDS Numbers, Json
CONSTANTS ObsFile, BadFile
VARIABLES i, done
Obs == ndJsonDeserialize(ObsFile)
Why == LET r == Obs[i] IN
       IF Mode = "N01" THEN (IF r.st = "unparsable" THEN "unparsable" ELSE IF r.st \in {"crash", "hang"} THEN r.st
                             ELSE WhyConversion(Conversion(r.id), r.src, r.res))
       ELSE WhySource(r.id, r)
Kind == IF Mode = "N01" THEN LET c == Conversion(Obs[i].id) IN c[1] \o ZI(c[2]) ELSE Source(Obs[i].id)[1]
Init == i \in 1..Len(Obs) /\ done = FALSE
Next == /\ ~done
        /\ LET w == Why IN IF w = "" THEN ZCount(Kind)
                           ELSE ZEmit(BadFile, ZI(i) \o "\t" \o ZI(Obs[i].id) \o "\t" \o Kind \o "\t" \o w)
        /\ done' = TRUE
        /\ UNCHANGED i
View == <<i, done>>
===============================================================================
