------------------------------- MODULE Stack -------------------------------
(* Stacking: one result per id, the mean of the traces with that id.        *)
(* A trace: [id, data (integers), off (onset - start), delta, head].        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ids(s) == {s[i].id : i \in 1..Len(s)}
Members(s, d) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i].id = d)
RECURSIVE SumAt(_, _, _)
SumAt(s, m, k) == IF m = <<>> THEN 0 ELSE s[Head(m)].data[k] + SumAt(s, Tail(m), k)
\* numerator and denominator of the stack of id d at sample k
StackNum(s, d, k) == SumAt(s, Members(s, d), k)
StackDen(s, d) == Len(Members(s, d))

(* design: traces are added one by one into accumulators                    *)
CONSTANTS IdSet, Vals, MaxLen, NS
VARIABLES stream, acc, pos
vars == <<stream, acc, pos>>
Init == /\ stream \in UNION {[1..n -> [id : IdSet, data : [1..NS -> Vals]]] : n \in 1..MaxLen}
        /\ acc = [d \in {} |-> 0] /\ pos = 1
Add == /\ pos <= Len(stream)
       /\ LET t == stream[pos]
              z == [n |-> 0, sum |-> [k \in 1..NS |-> 0]]
              old == IF t.id \in DOMAIN acc THEN acc[t.id] ELSE z
              new == [n |-> old.n + 1, sum |-> [k \in 1..NS |-> old.sum[k] + t.data[k]]]
          IN acc' = (t.id :> new) @@ acc
       /\ pos' = pos + 1 /\ UNCHANGED stream
Next == Add
Spec == Init /\ [][Next]_vars
Correct == pos = Len(stream) + 1 =>
             /\ DOMAIN acc = Ids(stream)
             /\ \A d \in Ids(stream) : /\ acc[d].n = StackDen(stream, d)
                                       /\ \A k \in 1..NS : acc[d].sum[k] = StackNum(stream, d, k)
\* the order of the traces does not matter
OrderFree == pos = 1 => \A d \in Ids(stream) : \A k \in 1..NS :
   LET r == [i \in 1..Len(stream) |-> stream[Len(stream) + 1 - i]]
   IN StackNum(r, d, k) = StackNum(stream, d, k) /\ StackDen(r, d) = StackDen(stream, d)
=============================================================================
