-------------------------------- MODULE Plot --------------------------------
(* A receiver function plot is drawn trace by trace, then the stack is added.  A trace is its id, its number of samples    *)
(* and its largest amplitude.  Fault: "none"; "running" (scaled by the maximum so far); "mixed" (the stack ignores ids);   *)
(* "alone" (no stack for a single trace); "skip" (traces without signal leave no row).                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Ids, Lens, Peaks, MaxN, Fault
VARIABLES stream, own, drawn, stack, pc
vars == <<stream, own, drawn, stack, pc>>
Trace == [id : Ids, len : Lens, peak : Peaks]
Init == /\ stream \in UNION {[1..n -> Trace] : n \in 1..MaxN} /\ own \in BOOLEAN /\ drawn = <<>> /\ stack = {} /\ pc = 1
MaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m
Scale(i) == IF own THEN stream[i].peak ELSE IF Fault = "running" THEN MaxOf({stream[j].peak : j \in 1..i}) ELSE MaxOf({stream[j].peak : j \in 1..Len(stream)})
Draw == /\ pc <= Len(stream) /\ pc' = pc + 1 /\ UNCHANGED <<stream, own, stack>>
        /\ drawn' = IF Fault = "skip" /\ stream[pc].peak = 0 THEN drawn ELSE Append(drawn, [trace |-> pc, row |-> IF Fault = "skip" THEN Len(drawn) + 1 ELSE pc, scale |-> Scale(pc)])
Common == (Fault = "mixed" \/ Cardinality({stream[i].id : i \in 1..Len(stream)}) = 1) /\ Cardinality({stream[i].len : i \in 1..Len(stream)}) = 1 /\ (Fault = "alone" => Len(stream) > 1)
Stack == pc = Len(stream) + 1 /\ pc' = pc + 1 /\ stack' = (IF Common THEN 1..Len(stream) ELSE {}) /\ UNCHANGED <<stream, own, drawn>>
Next == Draw \/ Stack
Spec == Init /\ [][Next]_vars
End == pc = Len(stream) + 2
Once == End => \A i \in 1..Len(stream) : Cardinality({k \in 1..Len(drawn) : drawn[k].trace = i}) = 1
InOrder == \A k \in 1..Len(drawn) : drawn[k].row = drawn[k].trace
Comparable == ~own => \A j, k \in 1..Len(drawn) : drawn[j].scale = drawn[k].scale
Fits == \A k \in 1..Len(drawn) : drawn[k].scale >= stream[drawn[k].trace].peak
Stacked == End => (stack = IF \A i, j \in 1..Len(stream) : stream[i].id = stream[j].id /\ stream[i].len = stream[j].len THEN 1..Len(stream) ELSE {})
=============================================================================
