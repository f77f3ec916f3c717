----------------------------- MODULE IterateTrace -----------------------------
(* A line is a complete iteration: what was requested from the provider, what was yielded, what the progress bar showed.       *)
EXTENDS Kit
VARIABLES l
vars == <<l>>
I == INSTANCE Iterate WITH E <- 0, G <- 0, Mode <- "right", e <- 0, g <- 0, todo <- 0, asked <- 0, yielded <- 0, bar <- 0, ended <- 0
Pairs(e) == (1..Len(e.ev)) \X (1..Len(e.gr))
\* the epoch in effect at the origin time, 0 if there is none
EpochOf(e, p) == LET S == {k \in 1..Len(e.gr[p[2]]) : e.gr[p[2]][k].from <= e.ev[p[1]].t /\ e.ev[p[1]].t <= e.gr[p[2]][k].to} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
Lim(e) == IF e.range = "default" THEN (IF e.phase = "P" THEN <<30000000, 90000000>> ELSE <<50000000, 85000000>>) ELSE <<e.lo, e.hi>>
InRange(e, p) == e.range = "none" \/ (Lim(e)[1] <= e.geo[p[1]][p[2]].dist /\ e.geo[p[1]][p[2]].dist <= Lim(e)[2])
Arrives(e, p) == \E i \in 1..Len(e.geo[p[1]][p[2]].arr) : e.geo[p[1]][p[2]].arr[i] = e.phase
Asked(e) == {p \in Pairs(e) : e.ev[p[1]].lack = "" /\ EpochOf(e, p) # 0 /\ InRange(e, p) /\ Arrives(e, p)}
Comps(e, p) == [i \in 1..Len(e.script[p[1]][p[2]].segs) |-> LET s == e.script[p[1]][p[2]].segs[i] IN [id |-> s.c, a |-> s.a, b |-> s.b, diff |-> s.diff, bad |-> s.bad]]
Good(e) == {p \in Asked(e) : e.script[p[1]][p[2]].what = "data" /\ I!Usable(Comps(e, p), e.N)}
Of(s) == [i \in 1..Len(s) |-> <<s[i].e, s[i].g>>]
Once(s) == Cardinality(Range(s)) = Len(s)
One(e, y) ==
  LET p == <<y.e, y.g>> c == I!Clip(Comps(e, p), e.N) IN
  Bad(y.cls /\ Len(y.trs) = 3 /\ {y.trs[i].c : i \in 1..Len(y.trs)} = I!Ids(c), "components")
  \cup Bad(\A i \in 1..Len(y.trs) : y.trs[i].c \in I!Ids(c) => LET s == I!Of(c, y.trs[i].c) IN y.trs[i].first = I!First(s) /\ y.trs[i].n = I!Last(s) - I!First(s) + 1 /\ y.trs[i].own, "samples-of-the-window")
  \cup Bad(\A i \in 1..Len(y.trs) : y.trs[i].time, "times-of-the-samples")
  \cup Bad(\A i \in 1..Len(y.trs) : y.trs[i].ev = y.e /\ y.trs[i].st = e.first[y.g] + EpochOf(e, p), "event-and-station-of-the-combination")
  \cup Bad(\A i \in 1..Len(y.trs) : Abs(y.trs[i].on) <= 2 /\ Near(y.trs[i].dist, e.geo[y.e][y.g].dist, 10) /\ y.trs[i].phase = e.phase /\ y.trs[i].pp = e.pp, "ray-metadata-of-the-combination")
Data(e) ==
  Bad(e.exc = "", "iteration-stopped")
  \cup Bad(Range(Of(e.req)) = Asked(e) /\ Once(Of(e.req)), "every-combination-with-metadata-is-requested-once")
  \cup Bad(\A i \in 1..Len(e.req) : e.req[i].code, "request-names-the-channel-group")
  \cup Bad(\A i \in 1..Len(e.req) : Near(e.req[i].s, 1000 * (e.w[1] - e.pad), 2) /\ Near(e.req[i].t, 1000 * (e.w[2] + e.pad), 2), "requested-window")
  \cup Bad(Range(Of(e.yields)) = Good(e) /\ Once(Of(e.yields)), "every-usable-combination-is-yielded-once")
  \cup Bad(\A i, j \in 1..Len(e.yields) : i < j => e.yields[i].e <= e.yields[j].e, "events-outermost")
  \cup Bad(\A i, j \in 1..Len(e.req) : i < j => e.req[i].e <= e.req[j].e, "events-outermost")
  \cup UNION {IF <<e.yields[i].e, e.yields[i].g>> \in Good(e) THEN One(e, e.yields[i]) ELSE {} : i \in 1..Len(e.yields)}
  \cup Bad(e.bar.used => e.bar.total = Cardinality(Pairs(e)) /\ e.bar.sum = Cardinality(Pairs(e)), "progress")
Meta(e) ==
  LET want == {p \in Pairs(e) : e.ev[p[1]].lack # "origin"} IN
  Bad(e.exc = "", "iteration-stopped")
  \cup Bad(IF e.events THEN Range(Of(e.out)) = want /\ Once(Of(e.out)) ELSE Of(e.out) = [i \in 1..Len(e.out) |-> <<0, e.out[i].g>>] /\ {e.out[i].g : i \in 1..Len(e.out)} = 1..Len(e.gr) /\ Len(e.out) = Len(e.gr), "metadata-of-every-combination-once")
  \cup Bad(e.bar.used => e.bar.total = (IF e.events THEN Cardinality(Pairs(e)) ELSE Len(e.gr)) /\ e.bar.sum = e.bar.total, "progress")
Clauses(e) == CASE e.op = "data" -> Data(e) [] e.op = "meta" -> Meta(e)
Init == l = 1
Next == l <= Len(Tr) /\ l' = l + 1 /\ Report(l, Clauses(Tr[l]))
Spec == Init /\ [][Next]_vars
=============================================================================
