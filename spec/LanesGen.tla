-------------------------------- MODULE LanesGen ---------------------------------
EXTENDS Lanes
CONSTANTS ScenFile, CallFile
VARIABLE i
Init == i \in {c \in 1..Count : Mod(c - 1, Chunk) = 0}
Emit == LET P == TLCEval(LProgram(i)) vs == TLCEval(Vectors(P, i)) IN
        /\ ZEmit(ScenFile, ZI(i) \o "\ttosimd\t" \o ZI(P.w) \o "\t" \o LSource(P, i))
        /\ ZEmit(CallFile, ZI(i) \o "\t" \o TraitFns(P.fns, 1) \o "\t" \o VecCalls(P, i, vs, 1) \o "\t" \o OneCalls(P, i, vs, 1))
Next == i <= Count /\ Emit /\ Mod(i, Chunk) # 0 /\ i' = i + 1
===============================================================================
