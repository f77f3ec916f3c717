------------------------------- MODULE Writer -------------------------------
(* A write call: the index for HDF5 files is set, the headers of every trace are prepared (for Q the station is replaced by *)
(* the id), the traces are written one after the other, and everything changed is restored.  It can fail at any point.        *)
(* Restore = "finally": also after a failure; "success": only after success.  Prepare = "inside": within the guarded part.     *)
EXTENDS Integers, Sequences, TLC
CONSTANTS N, Restore, Prepare
VARIABLES pc, fmt, k, renamed, index, written, failures
vars == <<pc, fmt, k, renamed, index, written, failures>>
Fmts == {"SAC", "Q", "H5"}
Indexes == {"user", "rf"}
Init == pc = "idle" /\ fmt = "SAC" /\ k = 0 /\ renamed = {} /\ index = "user" /\ written = <<>> /\ failures = 0
Call(f) == /\ pc = "idle" /\ fmt' = f /\ pc' = "prepare" /\ k' = 1 /\ written' = <<>> /\ index' = IF f = "H5" THEN "rf" ELSE index
           /\ UNCHANGED <<renamed, failures>>
PrepareTrace == /\ pc = "prepare" /\ k <= N
                /\ renamed' = IF fmt = "Q" THEN renamed \cup {k} ELSE renamed
                /\ k' = k + 1 /\ UNCHANGED <<pc, fmt, index, written, failures>>
Prepared == pc = "prepare" /\ k > N /\ pc' = "write" /\ k' = 1 /\ UNCHANGED <<fmt, renamed, index, written, failures>>
WriteTrace == /\ pc = "write" /\ k <= N /\ written' = Append(written, <<k, fmt, k \in renamed>>) /\ k' = k + 1
              /\ UNCHANGED <<pc, fmt, renamed, index, failures>>
Back == renamed' = {} /\ index' = "user"
Return == pc = "write" /\ k > N /\ pc' = "idle" /\ Back /\ UNCHANGED <<fmt, k, written, failures>>
Fail == /\ pc \in {"prepare", "write"} /\ failures < 2 /\ failures' = failures + 1 /\ pc' = "idle"
        /\ IF Restore = "finally" /\ (Prepare = "inside" \/ pc = "write") THEN Back ELSE UNCHANGED <<renamed, index>>
        /\ written' = <<>> /\ UNCHANGED <<fmt, k>>
Next == (\E f \in Fmts : Call(f)) \/ PrepareTrace \/ Prepared \/ WriteTrace \/ Return \/ Fail
Spec == Init /\ [][Next]_vars
\* nothing in memory differs outside a call
Same == pc = "idle" => renamed = {} /\ index = "user"
\* what a call that succeeded has written depends on the stream and the format only
Content == (pc = "write" /\ k > N) => written = [i \in 1..N |-> <<i, fmt, fmt = "Q">>]
Inv == Same /\ Content
=============================================================================
