---------------------------------- MODULE Cli ----------------------------------
(***************************************************************************)
(* Histories of runs of the generator in one directory.                    *)
(*                                                                         *)
(* A run is a record of its options. The text it generates is an unknown   *)
(* function of the selected entries, the width, the number type and the    *)
(* language; the machine learns that function from the runs it sees        *)
(* (memo) and demands that it is one. Files hold the text last written.    *)
(***************************************************************************)
EXTENDS Resolver, Z, TLC
CONSTANTS Seed

Languages == {"rust", "c", "portable-simd"}
Valid(o) == o.functions # <<>> /\ o.language \in Languages
Key(table, o) == <<Selected(table, o.functions, Range(o.exclude)), o.bits, o.type, o.language>>

\* What a run does to the memo and the files, given the text it generates.
RunFiles(o, files, text) == IF Valid(o) /\ o.output # "" THEN [p \in DOMAIN files \union {o.output} |-> IF p = o.output THEN text ELSE files[p]] ELSE files
RunStdout(o, text) == IF Valid(o) /\ o.output = "" THEN text ELSE ""

\* Functions that generate quickly, for histories.
Quick == <<"sin", "cos", "tan", "exp", "exp2", "ln", "log2", "sqrt", "recip", "round", "fty", "PI", "runif", "powf",
           "hypot", "sinh", "atan2", "nextafter", "cbrt", "invtrig", "trig", "recip_sqrt", "stats">>
NoC == {"sin_cos"}

Shuffle(h, s) == LET n == Len(s) r == IF n = 0 THEN 0 ELSE Pick(h, n) IN
                 [j \in 1..n |-> s[((j + r) % n) + 1]]
History(k) ==
   LET h == ZMix(ZMix(Seed, 555), k)
       fs == [j \in 1..(1 + IF Pick(Split(h, 7), 6) = 0 THEN 3 + Pick(Split(h, 1), 16) ELSE Pick(Split(h, 1), 3)) |-> PickSeq(Split(h, 10 + j), Quick)]
       ex == [j \in 1..Pick(Split(h, 2), 2) |-> PickSeq(Split(h, 20 + j), Quick)]
       base == [functions |-> fs, exclude |-> ex, bits |-> IF Pick(Split(h, 3), 2) = 0 THEN "32" ELSE "64",
                type |-> PickSeq(Split(h, 4), <<"decimal", "hex">>),
                language |-> PickSeq(Split(h, 5), <<"rust", "rust", "c", "portable-simd">>), output |-> ""]
       vary(j) ==
          LET g == Split(h, 40 + j)
              c == Pick(g, 8)
              out == PickSeq(Split(g, 1), <<"", "a.out", "b.out">>) IN
          CASE c = 0 -> [base EXCEPT !.output = "a.out"]
            [] c = 1 -> [base EXCEPT !.functions = Shuffle(Split(g, 2), fs) \o fs, !.output = out]
            [] c = 2 -> [base EXCEPT !.language = PickSeq(Split(g, 3), <<"klingon", "help", "Rust", "c++">>), !.output = "x.out"]
            [] c = 3 -> [base EXCEPT !.functions = <<>>, !.output = "y.out"]
            [] c = 4 -> [base EXCEPT !.exclude = Shuffle(Split(g, 2), ex) \o ex \o <<"nosuch">>, !.output = out]
            [] c = 5 -> [base EXCEPT !.bits = IF base.bits = "32" THEN "64" ELSE "32", !.output = out]
            [] c = 6 -> [base EXCEPT !.functions = <<"nosuch">> \o fs, !.output = out]
            [] OTHER -> [base EXCEPT !.output = out]
   IN <<base>> \o [j \in 1..4 |-> vary(j)]
===============================================================================
