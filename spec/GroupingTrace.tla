--------------------------- MODULE GroupingTrace ---------------------------
(* One event = one use of the component iterator on a real stream.          *)
EXTENDS Kit
Prefixes == {} Comps == {} Keys == {} MaxLen == 0 Sizes == {}
VARIABLES l
G == INSTANCE Grouping WITH stream <- <<>>, usekey <- FALSE, sizes <- {}, pos <- 0,
                            buckets <- {}, result <- {}
Clauses(e) ==
  LET want == G!Wanted(e.stream, e.usekey, Range(e.sizes))
      n == Len(e.stream)
      all == UNION {Range(g) : g \in Range(e.groups)}
  IN  Bad(e.exc = "", "iteration-raised")
 \cup (IF e.exc # "" THEN {} ELSE
       Bad(\A g \in Range(e.groups) : \A i \in Range(g) : i \in 1..n, "foreign-or-copied-trace")
  \cup Bad({SortSeq(g, <) : g \in Range(e.groups)} = want, "groups-are-the-classes-of-equal-id-and-key")
  \cup Bad(Len(e.groups) = Cardinality(want), "each-group-once")
  \cup Bad(\A g \in Range(e.groups) : \A i, j \in 1..Len(g) : i < j => g[i] < g[j], "stream-order-within-group")
  \cup Bad(e.len = Cardinality(want), "len-is-number-of-groups")
  \cup Bad(e.again = e.groups, "second-iteration-differs")
  \cup Bad(e.cls, "group-class-is-stream-class")
  \cup Bad(e.kept, "stream-modified"))
Init == l = 1
Next == l <= Len(Tr) /\ l' = l + 1 /\ Report(l, Clauses(Tr[l]))
Spec == Init /\ [][Next]_l
=============================================================================
