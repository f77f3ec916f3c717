----------------------------- MODULE MetadataGen -----------------------------
EXTENDS Kit
VARIABLES c, step
vars == <<c, step>>
\* coordinates in 1/1000 degree
Lat(i) == R({R((-90000)..90000), R((-60000)..60000), R((-60000)..60000), R({-90000, 90000, 0})})
Lon(i) == R({R((-180000)..180000), R((-180000)..180000), R({-180000, 180000, 0, 179999, 90000})})
Event(i) == [lat |-> Lat(i), lon |-> Lon(i), depth |-> R({0, 10000, R(0..2000), R(0..700000), R(0..50000)}), mag |-> R(40..90), t |-> 1000 * R(0..900000) + R(0..999), pref |-> Chance(40), prefmag |-> Chance(30)]
Station(i) == [lat |-> Lat(i), lon |-> Lon(i), elev |-> R((-500)..5000), form |-> R(0..2)]
\* an event at about the given distance (1/1000 degree) from a station near the equator: only to hit the ranges often
Near1(s, d) == [lat |-> LET x == s.lat + d IN IF x > 90000 THEN Max2(s.lat - d, 0 - 90000) ELSE x, lon |-> s.lon + R((-3000)..3000), depth |-> R({0, 10000, R(0..2000), R(0..700000)}), mag |-> R(40..90), t |-> 1000 * R(0..900000), pref |-> Chance(40), prefmag |-> FALSE]
Init == c = <<>> /\ step = 0
PickStations == step = 0 /\ step' = 1 /\ c' = [st |-> [i \in 1..R(1..3) |-> IF Chance(50) THEN [lat |-> R((-20000)..20000), lon |-> R((-180000)..180000), elev |-> R(0..3000), form |-> R(0..2)] ELSE Station(i)]]
PickEvents == step = 1 /\ step' = 2 /\ c' = c @@ [ev |-> [i \in 1..R(1..3) |-> IF Chance(70) THEN Near1(c.st[1], R({R(25000..95000), R(28000..32000), R(48000..52000), R(83000..92000), R(5000..65000)})) ELSE Event(i)]]
PickRange == /\ step = 2 /\ step' = 3
             /\ c' = c @@ [q |-> [phase |-> IF Chance(60) THEN "P" ELSE IF Chance(50) THEN "S" ELSE R({"PP", "PKP", "SKS", "Pdiff", "SS", "ScS", "PcP", "PS", "p"}), range |-> IF Chance(50) THEN "default" ELSE R({"none", "wide", "exact", "above", "below"}),
                                  lo |-> R(0..60000), hi |-> R(60000..180000), model |-> R({"iasp91", "iasp91", "ak135"}), form |-> IF Chance(60) THEN "stream" ELSE R({"stats", "none"}),
                                  n |-> R(1..5), pp |-> R({0, 0, 50, 100})]]
PickSources == /\ step = 3 /\ step' = 4
               /\ c' = c @@ [given |-> [e |-> IF Chance(60) THEN 0 ELSE R(1..Len(c.ev)), s |-> IF Chance(60) THEN 0 ELSE R(1..Len(c.st))], own |-> [i \in 1..c.q.n |-> [e |-> R(1..Len(c.ev)), s |-> R(1..Len(c.st)), old |-> Chance(30)]], lack |-> Chance(50)]
Out == step = 4 /\ step' = 5 /\ UNCHANGED c /\ Emit(c)
Next == PickStations \/ PickEvents \/ PickRange \/ PickSources \/ Out
Spec == Init /\ [][Next]_vars
=============================================================================
