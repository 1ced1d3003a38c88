--------------------------------- MODULE CliGen --------------------------------
EXTENDS Cli
CONSTANTS N, ScenFile
VARIABLE i
RECURSIVE Comma(_, _)
Comma(s, j) == IF j > Len(s) THEN "" ELSE (IF j > 1 THEN "," ELSE "") \o s[j] \o Comma(s, j + 1)
RunText(o) == Comma(o.functions, 1) \o "|" \o Comma(o.exclude, 1) \o "|" \o o.bits \o "|" \o o.type \o "|" \o o.language \o "|" \o o.output
RECURSIVE Line(_, _)
Line(h, j) == IF j > Len(h) THEN "" ELSE "\t" \o RunText(h[j]) \o Line(h, j + 1)
Init == i = 1
Next == i <= N /\ ZEmit(ScenFile, ZI(i) \o "\tcli" \o Line(History(i), 1)) /\ i' = i + 1
===============================================================================
