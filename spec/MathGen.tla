--------------------------------- MODULE MathGen ---------------------------------
EXTENDS MathScen
CONSTANTS Chunk, ScenFile
VARIABLE i
Init == i \in {c \in 1..Count : (c - 1) % Chunk = 0}
Emit == LET s == TLCEval(Scen(i)) IN ZEmit(ScenFile, ZI(i) \o "\t" \o s[1] \o "\t" \o Calls(s[2]))
Next == i <= Count /\ Emit /\ i % Chunk # 0 /\ i' = i + 1
===============================================================================
