---------------------------- MODULE ProfileTrace ----------------------------
EXTENDS Kit
VARIABLE l
P == INSTANCE Profile WITH Bins <- <<>>, Width <- 0, Along <- {}, Off <- {}, Comps <- {}, MaxLen <- 0, todo <- 0, acc <- 0, seen <- 0
MeanOK(e, o) == LET m == P!Members(e.bins, e.w, e.traces, o.box, o.comp) IN
   /\ Len(o.data) = e.n
   /\ \A k \in 1..e.n : Near(o.data[k] * Len(m), 10000 * SumSeq([j \in 1..Len(m) |-> e.traces[m[j]].vals[k]]), 20 * Len(m))
Member(e, o) == {e.traces[i] : i \in Range(P!Members(e.bins, e.w, e.traces, o.box, o.comp))}
Profile(e) ==
  IF e.exc # "" THEN {"profile-raised"} ELSE
  LET got == [i \in 1..Len(e.post) |-> <<e.post[i].box, e.post[i].comp>>] IN
     Bad(Range(got) = P!Keys(e.bins, e.w, e.traces) /\ Len(got) = Cardinality(P!Keys(e.bins, e.w, e.traces)), "one-trace-per-box-and-component")
  \cup (IF ~ Range(got) \subseteq P!Keys(e.bins, e.w, e.traces) THEN {} ELSE
     Bad(\A o \in Range(e.post) : o.num = Len(P!Members(e.bins, e.w, e.traces, o.box, o.comp)), "count-of-traces")
  \cup Bad(\A o \in Range(e.post) : MeanOK(e, o), "mean-of-the-traces-in-the-box")
  \cup Bad(\A o \in Range(e.post) : o.len = P!Length(e.bins, o.box), "length-of-the-box")
  \cup Bad(\A o \in Range(e.post) : o.delta = e.delta /\ o.off = e.off, "sampling-and-onset")
  \cup Bad(\A o \in Range(e.post) : o.type = "profile", "type")
  \cup Bad(\A o \in Range(e.post) : o.boxhead, "headers-of-box-and-profile")
  \cup Bad(\A o \in Range(e.post) : \E t \in Member(e, o) : t.hd = o.hd, "phase-moveout-slowness-of-a-trace-in-the-box"))
  \cup Bad(\A i \in 1..Len(got) - 1 : got[i][2] = got[i + 1][2] => got[i][1] < got[i + 1][1], "order-along-the-profile")
  \cup Bad(e.kept, "input-changed")
  \cup Bad(e.indep, "profile-and-input-share-state")
  \cup Bad(e.same, "result-depends-on-order-or-form-of-input")
Boxes(e) ==
     Bad(Len(e.boxes) = Len(e.bins) - 1, "number-of-boxes")
  \cup (IF Len(e.boxes) # Len(e.bins) - 1 THEN {} ELSE
     Bad(\A i \in 1..Len(e.boxes) : e.boxes[i].pos2 = 10 * P!Pos2(e.bins, i), "position-of-the-box")
  \cup Bad(\A i \in 1..Len(e.boxes) : e.boxes[i].len = 10 * P!Length(e.bins, i), "length-of-the-box")
  \cup Bad(\A i \in 1..Len(e.boxes) : Near(2 * e.boxes[i].along, 10 * P!Pos2(e.bins, i), 2) /\ Abs(e.boxes[i].off) <= 15, "mid-point-of-the-box"))
(* Known finding: with the default width (2000 km) the boxes of a profile from 45N towards north are displaced; the   *)
(* boxes (as twice their position) that the mid-points of the six boxes are found in should be their own.             *)
Wide(e) == IF e.found = [i \in 1..Len(e.bins) - 1 |-> P!Pos2(e.bins, i)] THEN {}
           ELSE IF e.found = <<550, -1, -1, -1, -1, -1>> /\ e.bins = <<0, 50, 100, 150, 200, 250, 300>> /\ e.lat = 45 /\ e.az = 0
           THEN {"KNOWN-wide-box-displaced"} ELSE {"mid-point-in-its-box"}
Clauses(e) == CASE e.op = "profile" -> Profile(e) [] e.op = "boxes" -> Boxes(e) [] e.op = "wide" -> Wide(e)
Init == l = 1
Next == l <= Len(Tr) /\ l' = l + 1 /\ Report(l, Clauses(Tr[l]))
Spec == Init /\ [][Next]_l
=============================================================================
