-------------------------------- MODULE CliTrace -------------------------------
(* A recorded history of runs is one the Cli machine has. rec.runs[k]: exit code,*)
(* standard output, files (name and text, as digests), validity of the text.     *)
EXTENDS Cli, Json
CONSTANTS N, TableFile, ObsFile, BadFile
VARIABLES i, k, memo, files
Table == ndJsonDeserialize(TableFile)
Obs == ndJsonDeserialize(ObsFile)
H == History(Obs[i].id)
Init == i \in 1..Len(Obs) /\ k = 0 /\ memo = {} /\ files = [p \in {} |-> ""]
Bad(why) == ZEmit(BadFile, ZI(i) \o "\t" \o ZI(Obs[i].id) \o "\t" \o ZI(k + 1) \o "\t" \o why)
Listing(fs) == {<<fs[j].name, fs[j].text>> : j \in 1..Len(fs)}
Pairs(f) == {<<p, f[p]>> : p \in DOMAIN f}
Next ==
   /\ k < Len(H)
   /\ LET o == H[k + 1]
          r == Obs[i].runs[k + 1]
          key == Key(Table, o)
          text == IF o.output = "" THEN r.stdout
                  ELSE IF \E j \in 1..Len(r.files) : r.files[j].name = o.output
                       THEN LET j == CHOOSE j \in 1..Len(r.files) : r.files[j].name = o.output IN r.files[j].text ELSE "missing"
          seen == {m \in memo : m[1] = key}
          wrong == CASE Valid(o) /\ r.rc # 0 -> "the generator failed"
                     [] r.stdout # RunStdout(o, text) -> "standard output"
                     [] Listing(r.files) # Pairs(RunFiles(o, files, text)) -> "files written"
                     [] Valid(o) /\ seen # {} /\ (CHOOSE m \in seen : TRUE)[2] # text -> "the text differs from an earlier run with the same meaning"
                     [] Valid(o) /\ o.exclude = <<>> /\ ~r.code -> "the text is not code"
                     [] Valid(o) /\ text = "" /\ key[1] # {} -> "no text"
                     [] OTHER -> ""
      IN IF wrong # "" THEN Bad(wrong) /\ FALSE
         ELSE /\ memo' = IF Valid(o) THEN memo \union {<<key, text>>} ELSE memo
              /\ files' = RunFiles(o, files, text)
              /\ k' = k + 1
              /\ UNCHANGED i
              /\ ZCount(IF ~Valid(o) THEN "run without text" ELSE IF seen # {} THEN "run repeated" ELSE "run")
View == <<i, k>>
===============================================================================
