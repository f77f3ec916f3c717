----------------------------- MODULE ProfileGen -----------------------------
EXTENDS Kit
VARIABLES c, trs, step
vars == <<c, trs, step>>
Starts == {-40, 0, 10, 15, 60}
WideGaps == {20, 25, 40, 70, 12, 13}
NarrowGaps == {5, 6, 7, 9, 15}
\* boxes up to 60 km wide: points at least 2 units off the edges, otherwise 5; a unit is 1, 0.5, 0.1 or 0.05 km
Margin(cc) == IF cc.w <= 60 THEN 2 ELSE 5
RECURSIVE Edges(_, _, _)
Edges(e, n, Gaps) == IF n = 0 THEN e ELSE Edges(Append(e, e[Len(e)] + R(Gaps)), n - 1, Gaps)
Init == c = <<>> /\ trs = <<>> /\ step = 0
PickConf == /\ step = 0 /\ step' = 1 /\ UNCHANGED trs
            /\ c' = LET w == TLCEval(R({40, 60, 100, 160}))
                         u == TLCEval(R({20, 20, 10, 1, 2}))
                     IN [bins |-> Edges(<<R(Starts)>>, R(1..5), IF w <= 60 /\ (u > 2 \/ Chance(60)) THEN NarrowGaps ELSE WideGaps), w |-> w, unit |-> u, lat |-> R({0, 10, -21, 38, -45}), lon |-> R({0, 20, -69, 179, -180}),
                     az |-> R({0, 45, 90, 180, 200, 331}), crs |-> R({"none", "none", "none", "other", "laea"}), n |-> R({1, 3, 6}),
                     off |-> R({0, 500, 1300}), delta |-> R({100, 500}), hasonset |-> Chance(85),
                     form |-> R({"stream", "stream", "method", "iterator", "list", "tqdm"}), fbins |-> Chance(40), dtype |-> R({"f8", "f8", "i8", "f4"})]
Free(cc) == {x \in -60..320 : \A e \in Range(cc.bins) : Abs(x - e) >= Margin(cc)}
Inner(cc) == {x \in Free(cc) : x > cc.bins[1] /\ x < cc.bins[Len(cc.bins)]}
OffOK(cc) == {0} \cup {x \in -100..100 : Abs(2 * Abs(x) - cc.w) >= 2 * Margin(cc)}
\* places in tenths of the unit, in narrow boxes also close to the edges
Inside(cc) == {x \in OffOK(cc) : 2 * Abs(x) < cc.w}
Beside(i) == R((2..9) \cup ((-9)..(-2)))
\* the sides of a box tilt by about width^2 / 2R tan(latitude)
Straight(cc) == cc.w <= 60 /\ (cc.w = 40 \/ cc.unit < 20 \/ Abs(cc.lat) <= 21)
Pt(cc) == IF ~ Straight(cc) \/ Chance(IF cc.unit <= 2 THEN 40 ELSE 70) THEN <<10 * R(IF Chance(80) THEN Inner(cc) ELSE Free(cc)), 10 * R(IF Chance(60) THEN Inside(cc) ELSE OffOK(cc))>>
          ELSE IF Chance(25) THEN <<10 * R({cc.bins[1], cc.bins[Len(cc.bins)]}) + R({-1, 1}) * (IF cc.unit <= 2 THEN 1 ELSE 3), R({0, 0, 10, -10})>>
          ELSE IF Chance(60) THEN <<10 * R({cc.bins[1], cc.bins[Len(cc.bins)], R(Range(cc.bins))}) + Beside(1), 10 * R(Inside(cc))>>
          ELSE <<10 * R(Inner(cc)), R({-1, 1}) * 5 * cc.w + Beside(1)>>
PickTraces == /\ step = 1 /\ step' = 2 /\ UNCHANGED c
              /\ trs' = [i \in 1..R({0, 1, 2, 4, 8, 14, 20}) |-> [pt |-> TLCEval(Pt(c)), comp |-> R({"Q", "Q", "T", "L"}), start |-> R({0, 1000, -77000}), sta |-> R({"A", "B"}), band |-> R({"BH", "HH", "BH"}),
                           head |-> R(0..7), vals |-> [j \in 1..c.n |-> R((-99)..99)]]]
Out == step = 2 /\ step' = 3 /\ UNCHANGED <<c, trs>> /\ Emit([c |-> c, traces |-> trs])
Next == PickConf \/ PickTraces \/ Out
Spec == Init /\ [][Next]_vars
=============================================================================
