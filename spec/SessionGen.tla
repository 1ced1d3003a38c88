------------------------------- MODULE SessionGen ------------------------------
(* Writes the histories the harness replays: one line per history.           *)
EXTENDS Session
CONSTANTS N, M, Chunk, ScenFile   \* N random histories, M exhaustive ones
VARIABLE i

\* Division of two literals by zero is outside the domain.
Excluded(ops) ==
   LET RECURSIVE Bad(_, _)
       Bad(k, regs) == IF k > Len(ops) THEN FALSE
                       ELSE LET op == ops[k] IN
                            \/ op[1] = "/" /\ Den(regs[op[3] + 1], 1, <<>>) = 0
                            \/ Size(After(op, regs)) > 400
                            \/ Bad(k + 1, Append(regs, After(op, regs)))
   IN Bad(1, <<>>)
History(k) == IF k <= N THEN RandomHistory(k)
              ELSE LET j == ZMix(Seed, 31) IN ExhaustiveHistory(IF M >= NExhaustive THEN k - N - 1 ELSE (((k - N - 1) * 997) + (j % NExhaustive)) % NExhaustive)

RECURSIVE Line(_, _)
Line(ops, k) == IF k > Len(ops) THEN "" ELSE "\t" \o OpText(ops[k]) \o Line(ops, k + 1)
Emit(k) == LET h == History(k) IN
           IF Excluded(h) THEN ZEmit(ScenFile, ZI(k) \o "\tsession\tP x") ELSE ZEmit(ScenFile, ZI(k) \o "\tsession" \o Line(h, 1))

Mod(a, b) == a % b
Init == i \in {c \in 1..(N + M) : Mod(c, Chunk) = 1}
Next == /\ i <= N + M
        /\ Emit(i)
        /\ Mod(i, Chunk) # 0
        /\ i' = i + 1
===============================================================================
