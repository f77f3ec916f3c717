---------------------------- MODULE PipelineTrace ----------------------------
(* A line is a command and what its output directory contains afterwards.  The contents of the directories follow from    *)
(* the earlier commands: store[i] = set of [e, g, s], the steps s done with the record of event e and channel group g.      *)
EXTENDS Kit
VARIABLES l, store
vars == <<l, store>>
Dirs == 1..12
Produced(e, st) ==
  IF e.op = "data" THEN {[e |-> x[1], g |-> x[2], s |-> e.steps] : x \in {y \in Range(e.sub) \X (1..Len(e.key)) : e.avail[y[1]][y[2]]}}
  ELSE {[e |-> x.e, g |-> x.g, s |-> x.s \o e.steps] : x \in {y \in st[e.in] : y.e \in Range(e.sub)}}
Update(old, new) == {x \in old : \A y \in new : y.e # x.e \/ y.g # x.g} \cup new
Got(e) == {[e |-> x.e, g |-> x.g, s |-> x.s] : x \in Range(e.recs)}
\* known finding: in Q format channel groups of one location share the file name of an event, the last one is kept
Lost(e, want) == want \ Got(e)
OnlyBands(e, want) == /\ e.fmt = "Q" /\ Got(e) \subseteq want /\ Lost(e, want) # {}
                      /\ \A x \in Lost(e, want) : \E y \in Got(e) : y.e = x.e /\ y.g # x.g /\ e.key[y.g] = e.key[x.g]
Clauses(e, st) ==
  IF e.exc # "" THEN {"command-failed-" \o e.op} ELSE
     Bad(e.touched = <<>>, "other-files-changed")
  \cup (IF e.kind # "rec" THEN Bad(e.ok, e.kind \o "-of-exactly-its-input") ELSE
     LET want == Update(st[e.out], Produced(e, st)) IN
     (IF Got(e) = want THEN {} ELSE IF OnlyBands(e, want) THEN {"KNOWN-q-bands-of-one-location"} ELSE
        Bad({[e |-> x.e, g |-> x.g] : x \in want} \subseteq {[e |-> x.e, g |-> x.g] : x \in Got(e)}, "record-lost-by-" \o e.op)
        \cup Bad(Got(e) \subseteq want, "record-of-nothing-or-wrong-steps-" \o e.op))
     \cup Bad(\A x \in Range(e.recs) : x.e = 0 \/ x.comps = (IF x.s = <<>> THEN "ENZ" ELSE e.comps), "components-of-a-record")
     \cup Bad(\A x \in Range(e.recs) : x.e = 0 \/ x.bad = <<>>, "headers-of-a-record"))
Init == l = 1 /\ store = [i \in Dirs |-> {}]
Next == /\ l <= Len(Tr) /\ l' = l + 1
        /\ LET e == Tr[l] st == IF e.n = 0 THEN [i \in Dirs |-> {}] ELSE store IN
           /\ Report(l, Clauses(e, st))
           /\ store' = IF e.exc = "" /\ e.kind = "rec" THEN [st EXCEPT ![e.out] = Got(e)] ELSE st
Spec == Init /\ [][Next]_vars
=============================================================================
