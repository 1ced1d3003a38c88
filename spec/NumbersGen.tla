------------------------------- MODULE NumbersGen -------------------------------
EXTENDS Numbers
CONSTANTS ScenFile
VARIABLE i
Init == i \in {c \in 1..Count : Mod(c, Chunk) = 1}
Next == i <= Count /\ ZEmit(ScenFile, Line(i)) /\ Mod(i, Chunk) # 0 /\ i' = i + 1
===============================================================================
