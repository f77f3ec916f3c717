--------------------------- MODULE HarmonicsTrace ---------------------------
EXTENDS Kit
VARIABLE l
H == INSTANCE Harmonics WITH CoefVals <- {}, coef <- 0, azim <- 0, left <- 0, acc <- 0
Two(e) == e.two
N(e) == Len(e.a[1])
Expected(e, t, j) == LET u == t.u - e.azim IN
  IF ~ Two(e) THEN H!One(e.a, u, j) ELSE IF t.second THEN H!TwoT(e.a, e.b, e.s, u, j) ELSE H!TwoR(e.a, e.b, e.s, u, j)
\* the driver has to build the data from the pattern of the specification
InputOK(e) == \A t \in Range(e.traces) : \A j \in 1..N(e) : Near(t.data[j], Expected(e, t, j), 300)
Coef(e, i) == IF i <= 5 THEN e.a[i] ELSE e.b[i - 5]
Clauses(e) ==
  IF e.exc # "" THEN {"decomposition-raised"} ELSE
     LET P == e.post IN
     Bad(Len(P) = (IF Two(e) THEN 10 ELSE 5), "number-of-harmonics")
  \cup (IF Len(P) # (IF Two(e) THEN 10 ELSE 5) THEN {} ELSE
     Bad(\A i \in 1..Len(P) : Len(P[i].data) = N(e) /\ \A j \in 1..N(e) : Near(P[i].data[j], 1000 * Coef(e, i)[j], 3), "coefficients-recovered")
  \cup Bad(\A i \in 1..Len(P) : P[i].term = H!Terms[((i - 1) % 5) + 1] /\ P[i].cha = ToString((i - 1) % 5), "term-and-number")
  \cup Bad(\A i \in 1..Len(P) : P[i].loc = IF i <= 5 THEN "mod" ELSE "unmod", "part")
  \cup Bad(\A i \in 1..Len(P) : P[i].comps = e.comps, "components")
  \cup Bad(\A i \in 1..Len(P) : P[i].type = "harmonic" /\ P[i].sta = e.sta, "type-and-station")
  \cup Bad(\A i \in 1..Len(P) : P[i].off = e.off /\ P[i].delta = e.delta, "sampling-and-onset")
  \cup Bad(\A i \in 1..Len(P) : P[i].evh = 0, "event-headers-removed")
  \cup Bad(e.kept, "input-changed")
  \cup Bad(e.indep, "result-shares-state"))
Init == l = 1
Next == l <= Len(Tr) /\ l' = l + 1 /\ Assert(InputOK(Tr[l]), "the driver built other data") /\ Report(l, Clauses(Tr[l]))
Spec == Init /\ [][Next]_l
=============================================================================
