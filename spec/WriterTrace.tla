----------------------------- MODULE WriterTrace -----------------------------
(* Lines "begin" give the memory (one digest per trace) and index setting at the start of a case, lines "edit" the memory after  *)
(* the driver changed a header, lines "write" what there is after a write call.  The specification carries memory and index.       *)
EXTENDS Kit
VARIABLES l, mem, index
vars == <<l, mem, index>>
Write(e) == Bad(Len(e.mem) = Len(mem), "number-of-traces-in-memory")
            \cup Bad(e.mem = mem \/ Len(e.mem) # Len(mem), "trace-in-memory-changed")
            \cup Bad(e.index = index, "index-setting-changed")
            \cup Bad(e.fault = "none" => e.exc = "", "valid-write-failed")
            \cup Bad(e.exc = "" => e.content = e.control, "file-content-depends-on-earlier-writes")
Clauses(e) == IF e.op = "write" THEN Write(e) ELSE {}
Init == l = 1 /\ mem = <<>> /\ index = ""
Next == /\ l <= Len(Tr) /\ l' = l + 1 /\ Report(l, Clauses(Tr[l]))
        /\ mem' = Tr[l].mem /\ index' = Tr[l].index
Spec == Init /\ [][Next]_vars
=============================================================================
