------------------------------ MODULE Requests ------------------------------
(* A request on a stream: its own conditions (method, phase, components, range) and the conditions on every trace     *)
(* (component, onset inside the data) are checked before the first trace is written.                                    *)
(* Fault: "none"; "interleaved" (a trace is checked when it is its turn to be written);                                 *)
(* "late" (the conditions of the request are checked after the preparation has changed the traces).                     *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS N, Fault
VARIABLES reqok, trok, pc, i, written, outcome
vars == <<reqok, trok, pc, i, written, outcome>>
Init == /\ reqok \in BOOLEAN /\ trok \in [1..N -> BOOLEAN] /\ pc = "request" /\ i = 1 /\ written = {} /\ outcome = "none"
Refuse == outcome' = "refused" /\ pc' = "end" /\ UNCHANGED <<reqok, trok, i, written>>
AcceptRequest == pc = "request" /\ Fault # "late" /\ reqok /\ pc' = "traces" /\ UNCHANGED <<reqok, trok, i, written, outcome>>
RefuseRequest == pc = "request" /\ Fault # "late" /\ ~reqok /\ Refuse
Late == /\ pc = "request" /\ Fault = "late"
        /\ IF reqok THEN pc' = "traces" /\ UNCHANGED <<reqok, trok, i, written, outcome>>
           ELSE written' = 1..N /\ outcome' = "refused" /\ pc' = "end" /\ UNCHANGED <<reqok, trok, i>>
AcceptTrace == /\ pc = "traces" /\ i <= N /\ trok[i] /\ i' = i + 1
               /\ written' = IF Fault = "interleaved" THEN written \cup {i} ELSE written
               /\ UNCHANGED <<reqok, trok, pc, outcome>>
RefuseTrace == pc = "traces" /\ i <= N /\ ~trok[i] /\ Refuse
Checked == pc = "traces" /\ i > N /\ pc' = "write" /\ i' = 1 /\ UNCHANGED <<reqok, trok, written, outcome>>
WriteTrace == pc = "write" /\ i <= N /\ written' = written \cup {i} /\ i' = i + 1 /\ UNCHANGED <<reqok, trok, pc, outcome>>
Finish == pc = "write" /\ i > N /\ outcome' = "done" /\ pc' = "end" /\ UNCHANGED <<reqok, trok, i, written>>
Next == AcceptRequest \/ RefuseRequest \/ Late \/ AcceptTrace \/ RefuseTrace \/ Checked \/ WriteTrace \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Valid == reqok /\ \A k \in 1..N : trok[k]
RefusedUntouched == outcome = "refused" => written = {}
Decided == pc = "end" => outcome = IF Valid THEN "done" ELSE "refused"
AllWritten == outcome = "done" => written = 1..N
Answered == <>(pc = "end")
=============================================================================
