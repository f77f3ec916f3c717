------------------------------ MODULE FormatsGen ------------------------------
(* Streams with headers, chains of changes and formats.  Header values are integers in 1/1000 units (times: ms; texts,     *)
(* positions: an index).  Traces have pairwise different box positions and start times.                                      *)
EXTENDS Kit
VARIABLES c, step
vars == <<c, step>>
Num == {"station_latitude", "station_longitude", "station_elevation", "event_latitude", "event_longitude", "event_depth", "event_magnitude",
        "distance", "back_azimuth", "inclination", "slowness", "pp_latitude", "pp_longitude", "pp_depth", "box_length", "slowness_before_moveout"}
Fields == Num \cup {"event_time", "onset", "type", "phase", "moveout", "box_lonlat", "event_id", "box_pos"}
Value(f, i, q) == CASE f = "box_pos" -> 125 * (8 * R(IF q THEN (-1)..0 ELSE R({(-20)..20, (-1)..1})) + i)
                 [] q /\ f = "event_time" -> R({-600000, -600000, -601000})
                 [] f \in {"event_time", "onset"} -> R({R((-900)..900) * 10, R((-90000)..90000), R((-900)..(-300)) * 1000, -600000, 0})
                 [] f \in {"type", "phase", "moveout", "box_lonlat", "event_id"} -> R(0..4)
                 [] OTHER -> R({0, 125 * R((-700)..700), R((-90)..90) * 1000, R((-90000)..90000), R(1..9) * 1000})
\* per trace: fields to set with the values, fields to delete
Change(i, pset, pdel, type, q) ==
  [set |-> [f \in {x \in Fields : Chance(pset)} |-> IF f = "type" THEN type ELSE Value(f, i, q)], del |-> {x \in Fields : Chance(pdel)}, kind |-> R(0..4)]
Sta(i) == R({"STA", "STA", "A", "LONGN", "B1"})
Init == c = <<>> /\ step = 0
PickStream == /\ step = 0 /\ step' = 1
              /\ c' = [n |-> R(1..5), one |-> Chance(40), same |-> Chance(30), len |-> R(1..12), dtype |-> R(0..3), delta |-> R({1000, 100, 500, 250, 40, 2000}), off |-> R(0..999), steps |-> R(1..4), net |-> R({"XX", "G", ""})]
PickTraces == /\ step = 1 /\ step' = 2
              /\ c' = [c |-> c, traces |-> [i \in 1..c.n |-> [sta |-> IF c.same THEN "STA" ELSE Sta(i), loc |-> IF c.same THEN "" ELSE R({"", "00", "10"}), cha |-> IF c.same THEN "BH" ELSE R({"BH", "HH", "LX"}), comp |-> IF c.same THEN "Z" ELSE R({"Z", "N", "E", "L", "Q", "T", "R", "1"}),
                                                             start |-> 40000 * i + (IF c.one THEN 0 ELSE c.off * i), data |-> [k \in 1..(c.len + (IF c.one THEN 0 ELSE i)) |-> R((-1000)..1000)]]]]
PickSteps == /\ step = 2 /\ step' = 3
             /\ c' = c @@ [pset |-> R({10, 40, 80, 100}), pdel |-> R({0, 0, 10, 30}), type |-> R(0..4), mixtype |-> Chance(15)]
PickChanges == /\ step = 3 /\ step' = 4
               /\ c' = c @@ [steps |-> [j \in 1..c.c.steps |->
                     [cut |-> R({0, 0, 0, 1, 2}), fmt |-> R({"SAC", "Q", "QC", "H5"}), how |-> R({"whole", "whole", "whole", "each", "append"}), low |-> Chance(20), ext |-> Chance(40), readfmt |-> Chance(40), 
                      changes |-> [i \in 1..c.c.n |-> Change(i, IF j = 1 THEN c.pset ELSE R({5, 30}), IF j = 1 THEN 0 ELSE c.pdel, IF c.mixtype THEN R(0..4) ELSE c.type, c.c.same)]]]]
Out == step = 4 /\ step' = 5 /\ UNCHANGED c /\ Emit(c)
Next == PickStream \/ PickTraces \/ PickSteps \/ PickChanges \/ Out
Spec == Init /\ [][Next]_vars
=============================================================================
