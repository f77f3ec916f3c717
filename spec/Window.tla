------------------------------- MODULE Window -------------------------------
(* Relative trimming and slicing on integer time grids (milliseconds).      *)
(* A trace: [start, delta, data, onset]; sample i (1-based) is at           *)
(* start + (i-1)*delta.  A request: bounds [k |-> "none"|"rel"|"abs", v],   *)
(* ref \in {"onset","starttime","endtime","abs"} (refv for "abs").          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NPts(t) == Len(t.data)
End(t) == t.start + (NPts(t) - 1) * t.delta
RefTime(t, ref, refv) == CASE ref = "onset" -> t.onset [] ref = "starttime" -> t.start
                           [] ref = "endtime" -> End(t) [] OTHER -> refv
\* absolute bound of trace t, or "none"
BoundSet(t, b, ref, refv) == IF b.k = "none" THEN {}
                             ELSE IF b.k = "abs" THEN {b.v} ELSE {RefTime(t, ref, refv) + b.v}
CeilDiv(a, b) == -((-a) \div b)
\* nearest grid index of an offset; both neighbours at a tie (what "nearest" means there is not documented)
Nearest(o, d) == LET q == o \div d  r == o % d
                 IN IF 2*r < d THEN {q} ELSE IF 2*r > d THEN {q + 1} ELSE {q, q + 1}
\* admissible first / last kept grid index (0-based, may lie outside of the data)
Lo(t, b, ref, refv, nearest) ==
  IF b.k = "none" THEN {0}
  ELSE LET o == (CHOOSE x \in BoundSet(t, b, ref, refv) : TRUE) - t.start
       IN IF nearest THEN Nearest(o, t.delta) ELSE {CeilDiv(o, t.delta)}
Hi(t, b, ref, refv, nearest) ==
  IF b.k = "none" THEN {NPts(t) - 1}
  ELSE LET o == (CHOOSE x \in BoundSet(t, b, ref, refv) : TRUE) - t.start
       IN IF nearest THEN Nearest(o, t.delta) ELSE {o \div t.delta}
\* grid points lo..hi of t, with the samples of t where there are any
Cut(t, lo, hi, pad, fill) ==
  LET a == IF pad THEN lo ELSE IF lo > 0 THEN lo ELSE 0
      b == IF pad THEN hi ELSE IF hi < NPts(t) - 1 THEN hi ELSE NPts(t) - 1
      n == IF b >= a THEN b - a + 1 ELSE 0
  IN [t EXCEPT !.start = t.start + a * t.delta,
               !.data = [i \in 1..n |-> LET j == a + i IN IF j \in 1..NPts(t) THEN t.data[j] ELSE fill]]
Results(t, r) == {Cut(t, lo, hi, r.pad, r.fill) :
                  lo \in Lo(t, r.s, r.ref, r.refv, r.nearest), hi \in Hi(t, r.e, r.ref, r.refv, r.nearest)}
     \cup \* a window that contains no sample at all may be empty although its bounds have a nearest sample
           {[t EXCEPT !.data = <<>>] : lo \in {x \in Lo(t, r.s, r.ref, r.refv, FALSE) :
                r.nearest /\ \A y \in Hi(t, r.e, r.ref, r.refv, FALSE) : y < x \/ (~r.pad /\ (y < 0 \/ x > NPts(t) - 1))}}

(* ------------- design: a stream that is trimmed again and again -------- *)
CONSTANTS Starts, Deltas, Lens, Onsets, Vals, MaxOps   \* Vals: bounds + 12
VARIABLES orig, cur, win, nops
vars == <<orig, cur, win, nops>>
Mk(s, d, n, o) == [start |-> s, delta |-> d, onset |-> o, data |-> [i \in 1..n |-> i]]
Init == /\ \E s \in Starts, d \in Deltas, n \in Lens, o \in Onsets : orig = Mk(s, d, n, o)
        /\ cur = orig /\ win = <<-1000, 1000>> /\ nops = 0
Trim == /\ nops < MaxOps /\ NPts(cur) > 0
        /\ \E a, b \in {v - 12 : v \in Vals} : \E ref \in {"onset", "starttime", "endtime"} :
             /\ a <= b
             /\ LET r == [s |-> [k |-> "rel", v |-> a], e |-> [k |-> "rel", v |-> b], ref |-> ref,
                          refv |-> 0, nearest |-> FALSE, pad |-> FALSE, fill |-> 0]
                    t0 == RefTime(cur, ref, 0)
                IN /\ cur' \in Results(cur, r)
                   /\ win' = <<IF t0 + a > win[1] THEN t0 + a ELSE win[1], IF t0 + b < win[2] THEN t0 + b ELSE win[2]>>
        /\ nops' = nops + 1 /\ UNCHANGED orig
Next == Trim
Spec == Init /\ [][Next]_vars
Time(t, i) == t.start + (i - 1) * t.delta
\* what is left are exactly the samples of the original inside all windows, at their times
Exact == LET keep == SelectSeq([i \in 1..NPts(orig) |-> i], LAMBDA i : Time(orig, i) >= win[1] /\ Time(orig, i) <= win[2])
         IN /\ NPts(cur) = Len(keep)
            /\ \A i \in 1..NPts(cur) : cur.data[i] = orig.data[keep[i]] /\ Time(cur, i) = Time(orig, keep[i])
OnsetKept == cur.onset = orig.onset /\ cur.delta = orig.delta
=============================================================================
