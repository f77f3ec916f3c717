---------------------------- MODULE DefaultsTrace ----------------------------
(* A line is a session: the calls as they were written and for each the number of its result (equal results, equal numbers;      *)
(* 0: refused or nothing in range).                                                                                                                 *)
EXTENDS DefaultsTable
VARIABLES l
vars == <<l>>
\* the settings in effect: name -> value
Filled(e, k) == LET T == Table[e.op] IN [n \in {T[i].n : i \in 1..Len(T)} |-> LET i == CHOOSE j \in 1..Len(T) : T[j].n = n IN IF e.calls[k].vals[i] = "" THEN T[i].d ELSE e.calls[k].vals[i]]
Off == "-"     \* has no effect in these settings
Phase(s) == IF s = "'P'" THEN "'S'" ELSE "'P'"
Source(s) == IF s \in {"'LZ'", "'L'"} THEN "L" ELSE "Q"
RfStats(f) == [f EXCEPT !["dist_range"] = IF @ # "'default'" THEN @ ELSE IF f["phase"] = "'P'" THEN "(30, 90)" ELSE "(50, 85)",
                        !["pp_phase"] = IF f["pp_depth"] = "None" THEN Off ELSE IF @ = "None" THEN Phase(f["phase"]) ELSE @,
                        !["model"] = IF f["pp_depth"] = "None" THEN Off ELSE @]
Method(f, input) == IF f["method"] = "None" THEN input ELSE f["method"]
RfCalc(f, input) == LET m == Method(f, input) none == f["deconvolve"] = "None" IN
  [f EXCEPT !["method"] = m, !["source_components"] = IF none THEN Off ELSE IF @ = "None" THEN (IF m = "'P'" THEN "'LZ'" ELSE "'QR'") ELSE @, !["winsrc"] = IF none THEN Off ELSE IF @ = "" THEN m ELSE @]
Deconv(f) == [f EXCEPT !["source_components"] = Source(@), !["response_components"] = IF @ = "None" THEN "'LQT'" ELSE @,
                       !["normalize"] = IF @ # "" THEN @ ELSE IF Source(f["source_components"]) = "Q" /\ f["response_components"] \in {"None", "'LQT'"} THEN "1" ELSE "0"]
EventData(f) == [f EXCEPT !["request_window"] = IF @ # "None" THEN @ ELSE IF f["phase"] = "'P'" THEN "(-50, 150)" ELSE "(-100, 50)", !["dist_range"] = IF @ # "'default'" THEN @ ELSE IF f["phase"] = "'P'" THEN "(30, 90)" ELSE "(50, 85)"]
PlotRf(f) == IF f["show_traces"] = "True" THEN f ELSE [f EXCEPT !["info"] = Off]
Effective(e, k) ==
  LET f == Filled(e, k) IN
  CASE e.op = "rfstats" -> RfStats(f)
    [] e.op = "moveoutP" -> [f EXCEPT !["phase"] = IF @ = "None" THEN "'Ps'" ELSE @]
    [] e.op = "moveoutS" -> [f EXCEPT !["phase"] = IF @ = "None" THEN "'Sp'" ELSE @]
    [] e.op \in {"ppointsP", "ppointsS"} -> [f EXCEPT !["pp_phase"] = IF @ # "None" THEN @ ELSE IF e.op = "ppointsP" THEN "'S'" ELSE "'P'"]
    [] e.op = "rfP" -> RfCalc(f, "'P'") [] e.op = "rfS" -> RfCalc(f, "'S'")
    [] e.op \in {"dTime", "dWater", "dIter"} -> Deconv(f)
    [] e.op = "dMulti" -> [Deconv(f) EXCEPT !["noise"] = IF @ = "NOISE0" THEN "None" ELSE @]   \* what is taken without the option
    [] e.op = "eventdata" -> EventData(f)
    [] e.op = "plotrf" -> PlotRf(f)
    [] e.op \in {"readQ", "readSAC", "readH5"} -> [f EXCEPT !["format"] = IF @ = "'GSE2'" THEN @ ELSE Off]
    [] e.op \in {"writeSAC", "writeH5"} -> [f EXCEPT !["sh_compat"] = Off]
    [] OTHER -> f
\* options another value of which need not change the result (limits that nothing reaches, solvers, domains, settings without effect)
Idle(op, f) ==
  CASE op \in {"rfstats", "eventdata"} -> {"dist_range"} \cup (IF f["pp_depth"] = "0" \/ f["phase"] = "'S'" THEN {"pp_phase", "model"} ELSE {})
    [] op \in {"ppointsP", "ppointsS"} -> IF f["pp_depth"] = "0" THEN {"pp_phase", "model"} ELSE {}
    [] op \in {"dTime", "aTime"} -> {"solve_toeplitz"}
    [] op \in {"dIter", "aIter"} -> IF f["itmax"] = "0" THEN DOMAIN f \ {"itmax"} ELSE IF f["itmax"] = "2" THEN {"minderr", "mute_shift"} ELSE IF f["minderr"] = "0.5" THEN {"itmax", "mute_shift"} ELSE {"mute_shift"}
    [] op \in {"dWater", "aWater"} -> IF f["waterlevel"] = "0" THEN DOMAIN f \ {"waterlevel"} ELSE {}
    [] op \in {"harmR", "harmRT"} -> {"method"}
    [] op \in {"plotpp", "plotmap"} -> IF f["inventory"] = "None" THEN {"label_stations"} ELSE {}
    [] op = "plotrf" -> IF f["show_traces"] = "False" THEN {"trace_scale", "scale_factor", "trace_height", "fillcolors"} ELSE {}
    [] op \in {"trim2", "slice2"} -> {"starttime", "endtime", "reftime", "keep_empty_traces"} [] op = "groups" -> {"key", "number_components"} [] OTHER -> {}
Differ(a, b) == {n \in DOMAIN a : a[n] # b[n] /\ Off \notin {a[n], b[n]}}     \* what an option switches on or off is no second difference
\* the windows for P and S may be the same for a method
Must(op, a, b) == LET d == Differ(a, b) IN Cardinality(d) = 1 /\ d \cap (Idle(op, a) \cup Idle(op, b)) = {} /\ (d = {"winsrc"} => ~({a["winsrc"], b["winsrc"]} \subseteq {"'P'", "'S'"}))
Clauses(e) ==
  LET N == Len(e.calls) E == [k \in 1..N |-> Effective(e, k)] r(k) == e.calls[k].res IN
  Bad(\A i, j \in 1..N : i < j /\ E[i] = E[j] => r(i) = r(j), "same-settings-same-result")
  \cup Bad(\A i, j \in 1..N : i < j /\ Must(e.op, E[i], E[j]) /\ r(i) # 0 /\ r(j) # 0 => r(i) # r(j), "given-value-is-used")
  \cup Bad(e.op \in {"readQ", "readSAC", "readH5"} => \A i \in 1..N : E[i]["format"] # Off => r(i) = 0, "other-format-is-refused")
  \cup Bad(\A i \in 1..N : e.calls[i].kept, "options-of-the-caller-unchanged")
Init == l = 1
Next == l <= Len(Tr) /\ l' = l + 1 /\ Report(l, Clauses(Tr[l]))
Spec == Init /\ [][Next]_vars
=============================================================================
