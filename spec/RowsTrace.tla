-------------------------------- MODULE RowsTrace --------------------------------
(***************************************************************************)
(* Judges the rows, the tests and the verdicts of the judging function.    *)
(***************************************************************************)
EXTENDS Rows, Json
CONSTANTS ObsFile, BadFile
VARIABLES i, done
Obs == ndJsonDeserialize(ObsFile)
Rec == Obs[i]
Init == i \in 1..Len(Obs) /\ done = FALSE
Why1 == CASE Rec.kind = "row" -> RowWhy(Rec)
          [] Rec.kind = "test" -> TestWhy(Rec)
          [] Rec.kind = "plot" -> IF Rec.head # PlotHead THEN "not the columns of a plot"
                                  ELSE IF Rec.got # Plotted(Verdict(Rec.k)) THEN "not the points of the plot" ELSE ""
          [] Rec.kind = "histogram" -> IF Rec.got \notin {"pass", "fail"} THEN "no verdict"
                                        ELSE IF (Rec.got = "fail") = HistogramFails(Planned(Rec.k)) THEN ""
                                        ELSE IF Rec.got = "pass" THEN "a wrong distribution passes" ELSE "a right distribution fails"
          [] OTHER -> IF Rec.got \notin {"pass", "fail"} THEN "no verdict"
                      ELSE IF (Rec.got = "fail") = Fails(Verdict(Rec.k)) THEN ""
                      ELSE IF Rec.got = "pass" THEN "a wrong result passes" ELSE "a right result fails"
Next == /\ ~done
        /\ LET v == TLCEval(Why1) IN
           IF v = "" THEN ZCount(Rec.kind \o (IF Rec.kind \in {"verdict", "histogram"} THEN " " \o Rec.got ELSE ""))
           ELSE ZEmit(BadFile, ZI(i) \o "\t" \o ZI(Rec.id) \o "\t" \o Rec.kind \o "\t" \o v) /\ FALSE
        /\ done' = TRUE
        /\ UNCHANGED i
View == <<i, done>>
===============================================================================
