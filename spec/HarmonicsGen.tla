---------------------------- MODULE HarmonicsGen ----------------------------
EXTENDS Kit
VARIABLES c, az, step
vars == <<c, az, step>>
Vec(n) == [t \in 1..5 |-> LET z == R({0, 1, 1, 1}) IN [j \in 1..n |-> z * R((-20)..20)]]
Init == c = <<>> /\ az = <<>> /\ step = 0
PickConf == /\ step = 0 /\ step' = 1 /\ UNCHANGED az
            /\ c' = LET n == R({1, 2, 5, 8, 12}) comps == R({"R", "Q", "T", "RT", "QT", "RT", "QT"})
                    IN TLCEval([n |-> n, comps |-> comps, azim |-> R(0..23), azimoff |-> R({-360, 0, 0, 360}), method |-> R({"time", "time", "freq"}),
                     defazim |-> Chance(10), defscal |-> Chance(30), s |-> R({<<30, 3>>, <<10, 10>>, <<5, 20>>, <<-10, 7>>}),
                     a |-> Vec(n), b |-> Vec(n), extra |-> R({"", "Z", "L", "T", "RZ", "Q"}), place |-> R({"first", "last", "mixed"}),
                     off |-> R({0, 500, 1300, -400, 7000}), delta |-> R({100, 500, 1000, 40}), hasonset |-> Chance(90),
                     hist |-> R(0..2), fun |-> Chance(50)])
\* distinct azimuths first, some of them repeated, in any order per component
PickAz == /\ step = 1 /\ step' = 2 /\ UNCHANGED c
          /\ az' = LET m == R(7..12)
                       ev == TLCEval([i \in 1..m |-> [u |-> (R({0, 1}) + 2 * i) % 24, wrap |-> R({-360, 0, 0, 0, 360}), t |-> R(1..1000)]])
                       more == TLCEval([i \in 1..R(0..3) |-> [u |-> R(0..23), wrap |-> 0, t |-> R(1..1000)]])
                       evs == ev \o more
                   IN [ev |-> evs, keyR |-> [i \in 1..Len(evs) |-> R(1..9999)], keyT |-> [i \in 1..Len(evs) |-> R(1..9999)], byorder |-> Chance(20)]
Out == step = 2 /\ step' = 3 /\ UNCHANGED <<c, az>> /\ Emit([c |-> c, az |-> az])
Next == PickConf \/ PickAz \/ Out
Spec == Init /\ [][Next]_vars
=============================================================================
