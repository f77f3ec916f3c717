------------------------------- MODULE Iterate -------------------------------
(* Iteration over all combinations of events and channel groups.  The environment decides for every combination what is      *)
(* missing: an origin, coordinates, ray metadata, or usable data (the provider raises, returns nothing or returns traces).      *)
(* Traces returned are described by segments of samples <<id, a, b, diff>>; the window has the samples 0..N.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS E, G, Mode           \* Mode "right" | "stop" (an exception ends the iteration) | "carry" (stream of the combination before)
VARIABLES e, g, todo, asked, yielded, bar, ended
vars == <<e, g, todo, asked, yielded, bar, ended>>
Faults == {"origin", "coords", "range", "raise", "nothing", "gap"}
Outcomes == {"data"} \cup Faults
Init == /\ e = 1 /\ g = 1 /\ todo \in [(1..E) \X (1..G) -> Outcomes] /\ asked = <<>> /\ yielded = <<>> /\ bar = 0 /\ ended = FALSE
        /\ \A a \in 1..E : (\E b \in 1..G : todo[<<a, b>>] = "origin") => \A b \in 1..G : todo[<<a, b>>] = "origin"
Requested(o) == o \notin {"origin", "coords", "range"}
More == e <= E /\ ~ ended
Step == g' = (IF g = G THEN 1 ELSE g + 1) /\ e' = (IF g = G THEN e + 1 ELSE e) /\ bar' = bar + 1 /\ UNCHANGED todo
Yield == /\ More /\ todo[<<e, g>>] = "data" /\ Step /\ asked' = Append(asked, <<e, g>>) /\ yielded' = Append(yielded, <<e, g>>) /\ UNCHANGED ended
Skip(o) == /\ More /\ todo[<<e, g>>] = o /\ Step /\ asked' = (IF Requested(o) THEN Append(asked, <<e, g>>) ELSE asked)
           /\ yielded' = (IF Mode = "carry" /\ o = "nothing" /\ yielded # <<>> THEN Append(yielded, yielded[Len(yielded)]) ELSE yielded)
           /\ ended' = (Mode = "stop" /\ o \in {"raise", "origin"})
Next == Yield \/ \E o \in Faults : Skip(o)
Spec == Init /\ [][Next]_vars
Set(s) == {s[i] : i \in 1..Len(s)}
Once(s) == Cardinality(Set(s)) = Len(s)
Complete == (e > E \/ ended) => /\ Set(yielded) = {p \in DOMAIN todo : todo[p] = "data"} /\ Once(yielded)
                                /\ Set(asked) = {p \in DOMAIN todo : Requested(todo[p])} /\ Once(asked)
                                /\ bar = E * G
                                /\ \A i, j \in 1..Len(yielded) : i < j => yielded[i][1] <= yielded[j][1]
-----------------------------------------------------------------------------
(* What the provider returned: segments, a sequence of [id, a, b, diff, bad].  bad: sampling or data type does not fit.            *)
Clip(segs, N) == SelectSeq([i \in 1..Len(segs) |-> [segs[i] EXCEPT !.a = IF @ < 0 THEN 0 ELSE @, !.b = IF @ > N THEN N ELSE @]], LAMBDA s : s.a <= s.b)
Ids(segs) == {segs[i].id : i \in 1..Len(segs)}
Of(segs, id) == SelectSeq(segs, LAMBDA s : s.id = id)
First(s) == LET S == {s[i].a : i \in 1..Len(s)} IN CHOOSE x \in S : \A y \in S : x <= y
Last(s) == LET S == {s[i].b : i \in 1..Len(s)} IN CHOOSE x \in S : \A y \in S : x >= y
\* every sample between the first and the last is there, and where segments overlap they agree
Full(s) == /\ \A x \in First(s)..Last(s) : \E i \in 1..Len(s) : s[i].a <= x /\ x <= s[i].b
           /\ \A i, j \in 1..Len(s) : (s[i].a <= s[j].b /\ s[j].a <= s[i].b) => s[i].diff = s[j].diff
Fits(s) == \A i, j \in 1..Len(s) : s[i].bad = s[j].bad
Usable(segs, N) == LET c == Clip(segs, N) IN Cardinality(Ids(c)) = 3 /\ \A id \in Ids(c) : Full(Of(c, id)) /\ Fits(Of(c, id))
=============================================================================
