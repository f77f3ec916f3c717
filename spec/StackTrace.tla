----------------------------- MODULE StackTrace -----------------------------
EXTENDS Kit
VARIABLE l
S == INSTANCE Stack WITH IdSet <- {}, Vals <- {}, MaxLen <- 0, NS <- 0, stream <- 0, acc <- 0, pos <- 0
Mean(e, o) == LET m == S!Members(e.pre, o.id) IN
  /\ m # <<>>
  /\ Len(o.data) = Len(e.pre[Head(m)].data)
  /\ \A k \in 1..Len(o.data) : Near(o.data[k] * Len(m), 10000 * S!SumAt(e.pre, m, k), 5 * Len(m))
OfId(e, o, f) == \E i \in 1..Len(e.pre) : e.pre[i].id = o.id /\ e.pre[i][f] = o[f]
Clauses(e) ==
     Bad(e.exc = "", "stack-raised")
  \cup (IF e.exc # "" THEN {} ELSE
     Bad({o.id : o \in Range(e.post)} = S!Ids(e.pre) /\ Len(e.post) = Cardinality(S!Ids(e.pre)), "one-trace-per-id")
  \cup Bad(\A o \in Range(e.post) : Mean(e, o), "mean-of-the-traces-of-the-id")
  \cup Bad(\A o \in Range(e.post) : OfId(e, o, "coords"), "coordinates-of-the-id")
  \cup Bad(\A o \in Range(e.post) : OfId(e, o, "phase") /\ OfId(e, o, "moveout"), "phase-and-moveout-of-the-id")
  \cup Bad(\A o \in Range(e.post) : OfId(e, o, "delta"), "sampling-of-the-id")
  \cup Bad(\A o \in Range(e.post) : OfId(e, o, "off"), "onset-offset-of-the-id")
  \cup Bad(e.kept, "input-changed")
  \cup Bad(e.indep, "stack-and-input-share-state")
  \cup Bad(e.cls, "class-of-the-result")
  \cup Bad(\A o \in Range(e.post) : o.logs = 1, "one-history-entry"))
Init == l = 1
Next == l <= Len(Tr) /\ l' = l + 1 /\ Report(l, Clauses(Tr[l]))
Spec == Init /\ [][Next]_l
=============================================================================
