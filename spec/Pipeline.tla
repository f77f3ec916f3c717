------------------------------ MODULE Pipeline ------------------------------
(* Directories of records.  A record is a pair <<group, event>>; what is stored of it is the sequence of steps done.     *)
(* A command reads the records it is asked for (the available ones for "data"), one after the other in any order, and    *)
(* writes the result of each to its output directory under the name of the record; it skips records that are missing.    *)
(* Fault: "none"; "collide" (the name of a record lacks the event); "abort" (a missing record ends the command);         *)
(* "inplace" (the result replaces the record in the input directory as well).                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Groups, Events, Dirs, MaxOps, Fault
VARIABLES store, avail, cmd, todo, before, nops
vars == <<store, avail, cmd, todo, before, nops>>
Recs == Groups \X Events
Nothing == [s |-> <<"none">>, r |-> <<0, 0>>]
Name(r) == IF Fault = "collide" THEN <<r[1], CHOOSE e \in Events : TRUE>> ELSE r
Idle == [kind |-> "idle", in |-> 0, out |-> 0, steps |-> <<>>, want |-> {}]
Steps(kind) == CASE kind = "data" -> {<<>>, <<"calc">>, <<"calc", "moveout">>} [] kind = "calc" -> {<<"calc">>, <<"calc", "moveout">>} [] OTHER -> {<<"moveout">>}
Applicable(kind, d) == \A r \in Recs : store[d][r] = Nothing \/ CASE kind = "calc" -> store[d][r].s = <<>> [] OTHER -> store[d][r].s = <<"calc">>
Init == /\ store = [d \in Dirs |-> [r \in Recs |-> Nothing]] /\ avail \in SUBSET Recs /\ cmd = Idle /\ todo = {} /\ before = store /\ nops = 0
Start(kind, i, o, s, evs) ==
  /\ evs # {} /\ cmd = Idle /\ nops < MaxOps /\ i # o /\ s \in Steps(kind) /\ (kind = "data" => i = CHOOSE d \in Dirs : d # o)
  /\ kind # "data" => (Applicable(kind, i) /\ \E r \in Recs : store[i][r] # Nothing)
  /\ \A r \in Recs : store[o][r] = Nothing \/ store[o][r].s = s
  /\ cmd' = [kind |-> kind, in |-> i, out |-> o, steps |-> s, want |-> Groups \X evs]
  /\ todo' = Groups \X evs /\ before' = store /\ nops' = nops + 1 /\ UNCHANGED <<store, avail>>
Source(st, r) == IF cmd.kind = "data" THEN (IF r \in avail THEN [s |-> <<>>, r |-> r] ELSE Nothing) ELSE st[cmd.in][Name(r)]
Do(r) == /\ cmd # Idle /\ r \in todo
         /\ LET x == Source(store, r) IN
            IF x = Nothing
            THEN /\ todo' = IF Fault = "abort" THEN {} ELSE todo \ {r}
                 /\ UNCHANGED store
            ELSE /\ todo' = todo \ {r}
                 /\ LET y == [s |-> x.s \o cmd.steps, r |-> x.r]
                        st1 == [store EXCEPT ![cmd.out][Name(x.r)] = y]
                    IN store' = IF Fault = "inplace" /\ cmd.kind # "data" THEN [st1 EXCEPT ![cmd.in][Name(x.r)] = y] ELSE st1
         /\ UNCHANGED <<avail, cmd, before, nops>>
End == cmd # Idle /\ todo = {} /\ cmd' = Idle /\ UNCHANGED <<store, avail, todo, before, nops>>
Next == \/ \E kind \in {"data", "calc", "moveout"}, i, o \in Dirs, evs \in SUBSET Events, s \in {<<>>, <<"calc">>, <<"calc", "moveout">>, <<"moveout">>} : Start(kind, i, o, s, evs)
        \/ \E r \in Recs : Do(r)
        \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(End) /\ \A r \in Recs : WF_vars(Do(r))
\* what the output has to contain when the command has ended
Expected(r) == LET x == Source(before, r) IN
  IF r \in cmd.want /\ x # Nothing THEN [s |-> x.s \o cmd.steps, r |-> r] ELSE before[cmd.out][r]
Complete == (cmd # Idle /\ todo = {}) => \A r \in Recs : store[cmd.out][r] = Expected(r)
\* directories other than the output are what they were
Frame == cmd # Idle => \A d \in Dirs \ {cmd.out} : store[d] = before[d]
\* a record is never found under another name, and its steps are in order
Identity == \A d \in Dirs, r \in Recs : store[d][r] = Nothing \/ (store[d][r].r = r /\ store[d][r].s \in {<<>>, <<"calc">>, <<"calc", "moveout">>, <<"moveout">>})
Ends == []<>(cmd = Idle)
=============================================================================
