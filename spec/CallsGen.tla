-------------------------------- MODULE CallsGen ---------------------------------
EXTENDS Calls
CONSTANTS ScenFile, CallFile
VARIABLE i
Init == i \in {c \in 1..Count : Mod(c - 1, Chunk) = 0}
Emit == LET P == TLCEval(CallProgram(i)) cs == TLCEval(CallList(i)) IN
        /\ ZEmit(ScenFile, ZI(i) \o "\ttoc\t" \o Prefix(i) \o "\t" \o (IF P.w = 32 THEN "f" ELSE "") \o "\t" \o Source(P, i))
        /\ ZEmit(CallFile, ZI(i) \o "\t" \o CCalls(P, Prefix(i), cs) \o "\t" \o RCalls(P, cs))
Next == i <= Count /\ Emit /\ Mod(i, Chunk) # 0 /\ i' = i + 1
===============================================================================
