----------------------------- MODULE RfCalcTrace -----------------------------
(* exact: integer records, every sample of every trace after rf(deconvolve=None) times 25                                *)
(*        e.recs[r] = [comps, data, b, i, n, on], e.out[r] = [id, data, start, on] per trace in the order of the stream   *)
(* plan:  the steps of the plan applied with the primitive operations; e.diff[r]: largest relative difference in 10^-9     *)
EXTENDS Kit
VARIABLE l
C == INSTANCE RfCalc WITH Comps <- {}, Records <- <<>>, opts <- 0, at <- 0, done <- 0, log <- 0
Idx(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Of(r, x) == r.data[Idx(r.comps, x)]
Has3(r) == \A x \in {"Z", "N", "E"} : x \in Range(r.comps)
Has2(r) == \A x \in {"N", "E"} : x \in Range(r.comps)
Iter(r) == Len(r.comps) \in {2, 3}
New(r, rot, x) == IF rot = "lqt" /\ Iter(r) /\ Has3(r) THEN CASE x = "Z" -> "L" [] x = "N" -> "Q" [] x = "E" -> "T"
                  ELSE IF rot = "rt" /\ Iter(r) /\ Has2(r) THEN CASE x = "N" -> "R" [] x = "E" -> "T" [] OTHER -> x
                  ELSE x
\* sample j of component x of record r after rotation and sign reversal, times 25
Sample(r, rot, x, j) ==
  IF rot = "lqt" /\ Iter(r) /\ Has3(r)
  THEN LET v == C!ZNE2LQT(Of(r, "Z")[j], Of(r, "N")[j], Of(r, "E")[j], r.b[1], r.b[2], r.i[1], r.i[2])
       IN CASE x = "Z" -> v[1] [] x = "N" -> -v[2] [] x = "E" -> v[3]
  ELSE IF rot = "rt" /\ Iter(r) /\ Has2(r) /\ x # "Z"
  THEN LET v == C!NE2RT(Of(r, "N")[j], Of(r, "E")[j], r.b[1], r.b[2]) IN IF x = "N" THEN v[1] ELSE v[2]
  ELSE 25 * Of(r, x)[j]
\* kept samples a..b of 1..n; empty traces are removed from the stream
First(e, r) == IF e.opts.trim THEN Max2(1, r.on + 1 + e.ta) ELSE 1
Last(e, r) == IF e.opts.trim THEN Min2(r.n, r.on + 1 + e.tb) ELSE r.n
Expected(e, r) ==
  LET a == First(e, r) b == Last(e, r) n == b - a + 1 S == e.opts.method = "S"
  IN [k \in 1..Len(r.comps) |->
       [comp |-> New(r, e.opts.rot, r.comps[k]), start |-> a - 1, on |-> IF S THEN (a - 1) + (b - 1) - r.on ELSE r.on,
        data |-> [j \in 1..n |-> Sample(r, e.opts.rot, r.comps[k], IF S THEN b + 1 - j ELSE a - 1 + j)]]]
Exact(e) == UNION {LET r == e.recs[i] x == TLCEval(Expected(e, r)) o == e.out[i]
                   IN Bad([k \in 1..Len(o) |-> o[k].comp] = [k \in 1..Len(x) |-> x[k].comp], "components")
                      \cup Bad(\A k \in 1..Len(x) : k <= Len(o) => o[k].data = x[k].data, "rotation-sign-and-mirroring")
                      \cup Bad(\A k \in 1..Len(x) : k <= Len(o) => o[k].start = x[k].start /\ o[k].on = x[k].on, "times") : i \in 1..Len(e.recs)}
Stepwise(e) == Bad(\A i \in 1..Len(e.plans) : e.plans[i] = C!PlanFor(e.opts, e.nc[i]), "plan")
               \cup Bad(\A i \in 1..Len(e.diff) : e.diff[i] <= 1000, "documented-steps-in-order")
               \cup Bad(\A i \in 1..Len(e.diff) : e.heads[i], "times-rates-and-ids")
Clauses(e) == IF e.exc # "" THEN {"calculation-raised"} ELSE
   (IF e.kind = "exact" THEN Exact(e) ELSE Stepwise(e))
   \cup Bad(\A i \in 1..Len(e.types) : e.types[i] = "rf", "type")
   \cup Bad(\A i \in 1..Len(e.phases) : e.phases[i] = e.opts.method, "phase-denotes-method")
   \cup Bad(e.self, "returns-the-stream")
Init == l = 1
Next == l <= Len(Tr) /\ l' = l + 1 /\ Report(l, Clauses(Tr[l]))
Spec == Init /\ [][Next]_l
=============================================================================
