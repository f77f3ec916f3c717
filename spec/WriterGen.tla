------------------------------ MODULE WriterGen ------------------------------
(* Streams and sequences of write calls, some of which fail at the k-th trace.                                         *)
EXTENDS Kit
VARIABLES c, step
vars == <<c, step>>
Faults(fmt) == CASE fmt = "SAC" -> {"none", "nodir", "isdir", "isdir", "badheader", "baddtype", "masked", "fsize", "fsize", "badkwarg"}
                 [] fmt = "Q"   -> {"none", "nodir", "isdir", "badheader", "badcomment", "baddtype", "masked", "fsize", "fsize"}
                 [] fmt = "H5"  -> {"none", "nodir", "isdir", "badheader", "override", "override", "masked", "badkwarg", "badmode"}
                 [] OTHER       -> {"badformat"}
Write(n) == [fmt |-> R({"SAC", "Q", "Q", "H5", "H5", "XYZ"}), k |-> R(1..n), one |-> Chance(20), compat |-> Chance(20), fsize |-> R({0, 1, 100, 700, R(0..3000)}), low |-> Chance(15)]
Init == c = <<>> /\ step = 0
PickStream == /\ step = 0 /\ step' = 1
              /\ c' = [n |-> R(1..5), len |-> R(3..40), dtype |-> R(0..2), type |-> R({"rf", "rf", "rf", "profile", "none", "harmonic"}), index |-> R(0..2), nheads |-> R({0, 1, 2, 2}),
                       off |-> R(0..999), sub |-> IF Chance(60) THEN 0 ELSE R(1..999), hist |-> R(0..2), loc |-> R({"", "00"}), writes |-> R(1..5)]
PickWrites == step = 1 /\ step' = 2 /\ c' = [c |-> c, w |-> [j \in 1..c.writes |-> Write(c.n)]]
PickFaults == step = 2 /\ step' = 3 /\ c' = c @@ [fault |-> [j \in 1..c.c.writes |-> IF c.w[j].fmt # "XYZ" /\ Chance(25) THEN "none" ELSE R(Faults(c.w[j].fmt))]]
Out == step = 3 /\ step' = 4 /\ UNCHANGED c /\ Emit(c)
Next == PickStream \/ PickWrites \/ PickFaults \/ Out
Spec == Init /\ [][Next]_vars
=============================================================================
