--------------------------------- MODULE RowsGen ---------------------------------
EXTENDS Rows
CONSTANTS Chunk, ScenFile, PlanFile
VARIABLE i
Init == i \in {c \in 1..Count : (c - 1) % Chunk = 0}
Emit == /\ ZEmit(ScenFile, ZI(i) \o "\t" \o VerdictText(i))
        /\ i <= Plans => ZEmit(PlanFile, ZI(i) \o "\t" \o HistogramText(i))
Next == i <= Count /\ Emit /\ i % Chunk # 0 /\ i' = i + 1
===============================================================================
