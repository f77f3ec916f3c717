------------------------------ MODULE Grouping ------------------------------
(* Component grouping (IterMultipleComponents): design.                     *)
(* A trace is a record [p |-> id without component, c |-> component,        *)
(* k |-> value of the grouping header].  The machine puts one trace after   *)
(* the other into buckets, as the code does; the invariants say what the    *)
(* result has to be.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Prefixes, Comps, Keys, MaxLen, Sizes   \* Sizes: set of admissible-size sets, {} = any
VARIABLES stream, usekey, sizes, pos, buckets, result
vars == <<stream, usekey, sizes, pos, buckets, result>>

Traces == [p : Prefixes, c : Comps, k : Keys]
GKey(t, uk) == IF uk THEN <<t.p, t.k>> ELSE <<t.p, "none">>

\* declarative definition: the groups of s are the classes of "same key", each as the sequence of
\* positions in stream order
Groups(s, uk) ==
  {SelectSeq([i \in 1..Len(s) |-> i], LAMBDA j : GKey(s[j], uk) = g)
     : g \in {GKey(s[i], uk) : i \in 1..Len(s)}}
Wanted(s, uk, sz) == {g \in Groups(s, uk) : sz = {} \/ Len(g) \in sz}

Init == /\ stream = <<>> /\ pos = 0 /\ buckets = {} /\ result = {}
        /\ usekey \in BOOLEAN /\ sizes \in Sizes
Append1 == /\ pos = 0 /\ Len(stream) < MaxLen
           /\ \E t \in Traces : stream' = Append(stream, t)
           /\ UNCHANGED <<usekey, sizes, pos, buckets, result>>
Start == /\ pos = 0 /\ pos' = 1 /\ UNCHANGED <<stream, usekey, sizes, buckets, result>>
Put == /\ pos >= 1 /\ pos <= Len(stream)
       /\ LET g == GKey(stream[pos], usekey)
              old == {b \in buckets : b.key = g}
          IN buckets' = IF old = {} THEN buckets \cup {[key |-> g, members |-> <<pos>>]}
                        ELSE LET b == CHOOSE b \in old : TRUE
                             IN (buckets \ {b}) \cup {[key |-> g, members |-> Append(b.members, pos)]}
       /\ pos' = pos + 1 /\ UNCHANGED <<stream, usekey, sizes, result>>
Filter == /\ pos = Len(stream) + 1
          /\ result' = {b.members : b \in {x \in buckets : sizes = {} \/ Len(x.members) \in sizes}}
          /\ pos' = pos + 1 /\ UNCHANGED <<stream, usekey, sizes, buckets>>
Next == Append1 \/ Start \/ Put \/ Filter
Spec == Init /\ [][Next]_vars

Mem(b) == {b.members[i] : i \in 1..Len(b.members)}
\* each trace seen so far is in exactly one bucket
Partition == \A i \in 1..Len(stream) :
               Cardinality({b \in buckets : i \in Mem(b)}) = IF i < pos THEN 1 ELSE 0
SameIffKey == \A b \in buckets : \A i, j \in 1..(pos-1) : (i <= Len(stream) /\ j <= Len(stream)) =>
                (i \in Mem(b) /\ j \in Mem(b) => GKey(stream[i], usekey) = GKey(stream[j], usekey))
InOrder == \A b \in buckets : \A i, j \in 1..Len(b.members) : i < j => b.members[i] < b.members[j]
Final == pos = Len(stream) + 2 => result = Wanted(stream, usekey, sizes)
=============================================================================
