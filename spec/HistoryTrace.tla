---------------------------- MODULE HistoryTrace ----------------------------
(* Lines "fresh" tell what a call returns in a new process; lines "call" what it returned in a history.  The trace   *)
(* specification carries the function from calls to results and accepts only results that agree with it.             *)
EXTENDS Kit
VARIABLES l, known
vars == <<l, known>>
Clauses(e) == IF e.op = "fresh" THEN Bad(~ (e.call \in DOMAIN known) \/ known[e.call] = e.res, "two-new-processes-differ")
              ELSE Bad(e.call \in DOMAIN known, "call-without-reference")
                   \cup Bad(e.call \in DOMAIN known => known[e.call] = e.res, "result-depends-on-history")
                   \cup Bad(e.indep, "result-changed-after-it-was-returned")
Init == l = 1 /\ known = <<>>
Next == /\ l <= Len(Tr) /\ l' = l + 1 /\ Report(l, Clauses(Tr[l]))
        /\ known' = IF Tr[l].op = "fresh" /\ ~ (Tr[l].call \in DOMAIN known) THEN (Tr[l].call :> Tr[l].res) @@ known ELSE known
Spec == Init /\ [][Next]_vars
=============================================================================
