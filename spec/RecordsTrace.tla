----------------------------- MODULE RecordsTrace -----------------------------
(* Runs of the same operations on subsets of the records of a case.  A line "alone" tells what became of a record that   *)
(* was processed alone ("plain": without rotation and deconvolution), a line "run" what became of the records of a run.   *)
(* The specification carries what is known about each trace of the case and accepts only runs that agree with it.          *)
EXTENDS Kit
VARIABLES l, known
vars == <<l, known>>
G == INSTANCE Records WITH Ids <- {}, Onsets <- {}, MaxComp <- 0, ByOnset <- TRUE, ById <- TRUE, recs <- <<>>, stream <- {}, groups <- <<>>, done <- {}
\* o: [name |-> <<record, component>>, head |-> STRING, proj |-> integers]
Agree(o, p) == o.head = p.head /\ NearSeq(o.proj, p.proj, 5)
Names(s) == [i \in 1..Len(s) |-> s[i].name]
Alone(e) == Bad(e.exc = "", "record-with-other-number-of-components-refused")
            \cup Bad(Len(e.out) \in {0, e.ncomp} \/ e.exc # "", "part-of-a-record-lost")
            \cup (IF e.rf /\ e.exc = "" /\ ~ G!Eligible(e.ncomp) THEN Bad(Len(e.out) = Len(e.plain) /\ \A i \in 1..Len(e.out) : Agree(e.out[i], e.plain[i]), "record-with-other-number-of-components-changed") ELSE {})
            \cup (IF e.rf /\ e.exc = "" /\ G!Eligible(e.ncomp) /\ Len(e.out) > 0
                  THEN Bad(Len(e.out) = Len(e.plain) /\ \A i \in 1..Len(e.out) : ~ NearSeq(e.out[i].proj, e.plain[i].proj, 5), "record-with-two-or-three-components-not-processed") ELSE {})
Run(e) == LET Exp == SelectSeq(e.input, LAMBDA n : n \in DOMAIN known)
          IN Bad(e.exc = "", "run-failed-though-the-records-alone-do-not")
             \cup (IF e.exc = "" THEN Bad(Names(e.out) = Exp, "traces-or-their-order")
                                      \cup Bad(\A i \in 1..Len(e.out) : e.out[i].name \in DOMAIN known => e.out[i].head = known[e.out[i].name].head, "header-depends-on-other-records")
                                      \cup Bad(\A i \in 1..Len(e.out) : e.out[i].name \in DOMAIN known => NearSeq(e.out[i].proj, known[e.out[i].name].proj, 5), "data-depend-on-other-records")
                                 ELSE {})
Clauses(e) == IF e.op = "alone" THEN Alone(e) ELSE IF e.op = "run" THEN Run(e) ELSE {}
Init == l = 1 /\ known = <<>>
Next == /\ l <= Len(Tr) /\ l' = l + 1 /\ Report(l, Clauses(Tr[l]))
        /\ known' = LET e == Tr[l] IN
             IF e.op = "new" THEN <<>>
             ELSE IF e.op = "alone" THEN [n \in {e.out[i].name : i \in 1..Len(e.out)} |-> CHOOSE o \in Range(e.out) : o.name = n] @@ known
             ELSE known
Spec == Init /\ [][Next]_vars
=============================================================================
