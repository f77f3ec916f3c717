-------------------------------- MODULE View --------------------------------
(* The properties type and method of a stream are views on the headers of its traces.                                          *)
(* Fault: "none"; "first" (the header of the first trace is reported); "one" (only the first trace is set);                     *)
(* "all" (the header is reported only if no trace lacks it); "case" (a lower case phase gives a lower case method).              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxTraces, Steps, Fault
VARIABLES st, k, lastset
vars == <<st, k, lastset>>
Types == {"", "rf", "profile"}
Phases == {"", "P", "S", "Ps", "p"}
Last == [P |-> "P", S |-> "S", Ps |-> "S", p |-> IF Fault = "case" THEN "p" ELSE "P"]
Values(f) == {st[i][f] : i \in {j \in 1..Len(st) : st[j][f] # ""}}
Unique(f) == IF Fault = "first" /\ st # <<>> THEN st[1][f]
             ELSE IF Fault = "all" /\ \E i \in 1..Len(st) : st[i][f] = "" THEN ""
             ELSE IF Cardinality(Values(f)) = 1 THEN CHOOSE v \in Values(f) : TRUE ELSE ""
Type == Unique("type")
Method == IF Unique("phase") = "" THEN "" ELSE Last[Unique("phase")]
Init == st = <<>> /\ k = 0 /\ lastset = <<"", "">>
Step == k < Steps /\ k' = k + 1
Add == Step /\ Len(st) < MaxTraces /\ lastset' = <<"", "">> /\ \E t \in Types : \E p \in Phases : st' = Append(st, [type |-> t, phase |-> p])
Remove == Step /\ st # <<>> /\ lastset' = <<"", "">> /\ st' = Tail(st)
SetAll(f, v) == st' = [i \in 1..Len(st) |-> IF Fault = "one" /\ i > 1 THEN st[i] ELSE [st[i] EXCEPT ![f] = v]]
SetType == Step /\ \E t \in Types \ {""} : SetAll("type", t) /\ lastset' = <<"type", t>>
SetMethod == Step /\ \E m \in {"P", "S"} : SetAll("phase", m) /\ lastset' = <<"method", m>>
Next == Add \/ Remove \/ SetType \/ SetMethod
Spec == Init /\ [][Next]_vars
\* what was set is what is reported
ReadBack == st # <<>> => (lastset[1] = "type" => Type = lastset[2]) /\ (lastset[1] = "method" => Method = lastset[2])
Methods == Method \in {"", "P", "S"}
\* an empty stream has none, and a value that is reported is that of every trace that has one
Reported == /\ (st = <<>> => Type = "" /\ Method = "")
            /\ Type # "" => \A i \in 1..Len(st) : st[i].type \in {"", Type}
\* a stream whose traces agree reports it, traces without the header do not count
Agreed == \A t \in Types \ {""} : (\A i \in 1..Len(st) : st[i].type \in {"", t}) /\ (\E i \in 1..Len(st) : st[i].type = t) => Type = t
=============================================================================
