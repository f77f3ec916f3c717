------------------------------- MODULE Config -------------------------------
(* One call of the command line: where its options come from and when it may write.                                       *)
(* An option has a value in the file, on the command line, in both or in none (0).  A dictionary option is replaced as a  *)
(* whole; the shorthand sets one of its keys afterwards.  Fault: "none"; "filewins"; "merge" (dictionaries are merged key *)
(* by key); "shorthandfirst" (the shorthand is set before the dictionary of the command line replaces that of the file);   *)
(* "late" (unknown options are noticed after the first record is written); "silent" (no message if inputs are unreadable). *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Vals, Records, Fault
VARIABLES file, cli, flags, pc, eff, out, msg
vars == <<file, cli, flags, pc, eff, out, msg>>
V == Vals \cup {0}
Dict == {<<>>} \cup [{"key", "other"} -> V]        \* <<>> : not given
Opts == [opt : V, dict : Dict, short : V]
Flags == [broken : BOOLEAN, unknown : BOOLEAN, twice : BOOLEAN, unreadable : BOOLEAN]
Empty == [k \in {"key", "other"} |-> 0]
Init == /\ file \in Opts /\ cli \in Opts /\ flags \in Flags /\ pc = "parse" /\ eff = [opt |-> 0, dict |-> Empty] /\ out = 0 /\ msg = FALSE
Refuse(m) == pc' = "end" /\ msg' = m /\ UNCHANGED <<file, cli, flags, eff, out>>
Go(next) == pc' = next /\ UNCHANGED <<file, cli, flags, out, msg>>
Parse == pc = "parse" /\ IF flags.broken THEN Refuse(TRUE) ELSE Go("merge") /\ UNCHANGED eff
First(a, b) == IF a # 0 THEN a ELSE b
Short == First(cli.short, file.short)
Set(d) == [k \in {"key", "other"} |-> IF k = "key" THEN First(Short, d[k]) ELSE d[k]]
D(d) == IF d = <<>> THEN Empty ELSE d
Merged == CASE Fault = "merge" -> Set([k \in {"key", "other"} |-> First(D(cli.dict)[k], D(file.dict)[k])])
            [] Fault = "shorthandfirst" -> IF cli.dict # <<>> THEN cli.dict ELSE Set(D(file.dict))
            [] Fault = "filewins" -> Set(IF file.dict # <<>> THEN file.dict ELSE D(cli.dict))
            [] OTHER -> Set(IF cli.dict # <<>> THEN cli.dict ELSE D(file.dict))
Merge == pc = "merge" /\ Go("check") /\ eff' = [opt |-> IF Fault = "filewins" THEN First(file.opt, cli.opt) ELSE First(cli.opt, file.opt), dict |-> Merged]
Check == pc = "check" /\ IF (flags.unknown /\ Fault # "late") \/ flags.twice THEN Refuse(TRUE) ELSE Go("read") /\ UNCHANGED eff
Read == pc = "read" /\ IF flags.unreadable THEN Refuse(Fault # "silent") ELSE Go("work") /\ UNCHANGED eff
Work == /\ pc = "work" /\ UNCHANGED <<file, cli, flags, eff>>
        /\ IF Fault = "late" /\ flags.unknown /\ out = 1 THEN pc' = "end" /\ msg' = TRUE /\ UNCHANGED out
           ELSE IF out < Records THEN out' = out + 1 /\ UNCHANGED <<pc, msg>> ELSE pc' = "end" /\ UNCHANGED <<out, msg>>
Next == Parse \/ Merge \/ Check \/ Read \/ Work
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Invalid == flags.broken \/ flags.unknown \/ flags.twice \/ flags.unreadable
Refused == Invalid => (out = 0 /\ (pc = "end" => msg))
Done == (~Invalid /\ pc = "end") => (out = Records /\ ~msg)
Given(a, b) == IF a # 0 THEN a ELSE b
Effective == pc = "work" =>
  /\ eff.opt = Given(cli.opt, file.opt)
  /\ LET d == IF cli.dict # <<>> THEN cli.dict ELSE IF file.dict # <<>> THEN file.dict ELSE Empty
     IN eff.dict.other = d["other"] /\ eff.dict.key = Given(Given(cli.short, file.short), d["key"])
Ends == <>(pc = "end")
=============================================================================
