---------------------------- MODULE MetadataTrace ----------------------------
(* A line is a call of rfstats.  geo[e][s] is the reference geometry of event e and station s: distance, back azimuth and     *)
(* all arrivals with their names.  traces: own event and station of the traces (or the single stats); out: what came out.       *)
EXTENDS Kit
VARIABLES l
vars == <<l>>
M == INSTANCE Metadata WITH E <- 0, S <- 0, N <- 0, Lo <- 0, Hi <- 0, Mode <- "right", traces <- 0, given <- 0, i <- 0, kept <- 0, ray <- 0
Used(e, t) == M!Geometry(<<e.given.e, e.given.s>>, <<t.e, t.s>>)
Geo(e, t) == e.geo[Used(e, t)[1]][Used(e, t)[2]]
Range1(e) == IF e.range = "default" THEN (IF e.phase \in {"P", "p"} THEN <<30000000, 90000000>> ELSE <<50000000, 85000000>>) ELSE <<e.lo, e.hi>>
\* in range / out of range / too close to a limit to tell from rounded numbers (then by the exact comparison of the driver)
In(e, t) == IF e.range \in {"exact", "above", "below"} THEN Geo(e, t).exact ELSE M!InRange(Geo(e, t).dist, Range1(e)[1], Range1(e)[2])
Arr(e, t) == SelectSeq(Geo(e, t).arr, LAMBDA a : a.name = e.phase)
First(e, t) == LET s == Arr(e, t) IN s[CHOOSE i \in 1..Len(s) : \A j \in 1..Len(s) : s[i].time < s[j].time \/ (s[i].time = s[j].time /\ i <= j)]
Cyclic(a, b) == Min2(Abs(a - b), 360000000 - Abs(a - b))
One(e, t, o) == \* o: values of trace t that was kept
  LET g == Geo(e, t) f == First(e, t) IN
  Bad(o.ev = Used(e, t)[1] /\ o.st = Used(e, t)[2], "event-or-station-attributes")
  \cup Bad(Near(o.dist, g.dist, 10), "distance")
  \cup Bad(Cyclic(o.baz, g.baz) <= 1000 \/ g.degenerate, "back-azimuth")
  \cup Bad(Near(o.time, f.time, 2), "onset")
  \cup Bad(Near(o.inc, f.inc, 20), "inclination")
  \cup Bad(Near(o.slow, f.slow, 20), "slowness")
  \cup Bad(o.phase = e.phase, "phase")
  \cup Bad(o.pp = e.pp, "piercing-point-headers")
Clauses(e) ==
  LET use == SelectSeq(e.traces, LAMBDA t : In(e, t))
      fail == \E i \in 1..Len(use) : Arr(e, use[i]) = <<>>
  IN IF fail THEN Bad(e.exc # "", "phase-that-does-not-arrive-accepted")
     ELSE Bad(e.exc = "", "failed")
          \cup (IF e.exc # "" THEN {} ELSE
               Bad([i \in 1..Len(e.out) |-> e.out[i].uid] = [i \in 1..Len(use) |-> use[i].uid], "traces-kept")
               \cup Bad(e.self, "returned-object")
               \cup Bad(e.untouched, "ray-values-out-of-range")
               \cup (IF Len(e.out) = Len(use) THEN UNION {One(e, use[i], e.out[i]) : i \in 1..Len(use)} ELSE {}))
Init == l = 1
Next == l <= Len(Tr) /\ l' = l + 1 /\ Report(l, Clauses(Tr[l]))
Spec == Init /\ [][Next]_vars
=============================================================================
