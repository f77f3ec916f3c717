------------------------------- MODULE Metadata -------------------------------
(* Ray metadata of the traces of a stream.  A trace may carry an event and a station of its own (0: none); an event or      *)
(* station given with the call takes precedence.  Geometry (e, s) has distance Dist[e][s].  Traces outside the range are     *)
(* discarded and get no ray values.                                                                                           *)
EXTENDS Integers, Sequences, TLC
CONSTANTS E, S, N, Lo, Hi, Mode        \* Mode "right" | "stale" (values of the previous trace in range) | "own" (own event before given event)
VARIABLES traces, given, i, kept, ray
vars == <<traces, given, i, kept, ray>>
Dist(e, s) == 10 * e + 3 * s
Pick(g, own) == IF g # 0 THEN g ELSE own
\* geometry used for a trace: <<event, station>> or <<0, 0>> if it is incomplete
Geometry(g, t) == LET e == Pick(g[1], t[1]) s == Pick(g[2], t[2]) IN IF e = 0 \/ s = 0 THEN <<0, 0>> ELSE <<e, s>>
InRange(d, lo, hi) == lo <= d /\ d <= hi
Init == /\ traces \in UNION {[1..n -> (0..E) \X (0..S)] : n \in 0..N} /\ given \in (0..E) \X (0..S)
        /\ i = 1 /\ kept = <<>> /\ ray = <<>>
Used(k) == IF Mode = "own" THEN Geometry(<<0, given[2]>>, <<Pick(traces[k][1], given[1]), traces[k][2]>>) ELSE Geometry(given, traces[k])
Keep == /\ i <= Len(traces) /\ Used(i) # <<0, 0>> /\ InRange(Dist(Used(i)[1], Used(i)[2]), Lo, Hi)
        /\ kept' = Append(kept, i) /\ ray' = Append(ray, IF Mode = "stale" /\ ray # <<>> THEN ray[Len(ray)] ELSE Used(i)) /\ i' = i + 1 /\ UNCHANGED <<traces, given>>
Discard == /\ i <= Len(traces) /\ Used(i) # <<0, 0>> /\ ~ InRange(Dist(Used(i)[1], Used(i)[2]), Lo, Hi) /\ i' = i + 1 /\ UNCHANGED <<traces, given, kept, ray>>
Next == Keep \/ Discard
Spec == Init /\ [][Next]_vars
In(k) == LET g == Geometry(given, traces[k]) IN g # <<0, 0>> /\ InRange(Dist(g[1], g[2]), Lo, Hi)
Right == /\ \A k \in 1..Len(kept) : In(kept[k]) /\ ray[k] = Geometry(given, traces[kept[k]])
         /\ \A k \in 1..(i - 1) : In(k) => \E j \in 1..Len(kept) : kept[j] = k
         /\ \A j, k \in 1..Len(kept) : j < k => kept[j] < kept[k]
=============================================================================
