------------------------------ MODULE RecordsGen ------------------------------
(* Streams of several records, operations, and runs on subsets of the records with the traces in several orders.      *)
EXTENDS Kit
VARIABLES c, step
vars == <<c, step>>
Comps(m, rot) ==
  CASE m = "P" /\ rot = "lqt" -> {"ZNE", "ZNE", "ZNE", "ENZ", "EZN", "LQT", "LQ", "QTL", "ZRT", "RZ", "Z", "T", "ZNEX", "XQLT1"}
    [] m = "P" /\ rot = "rt"  -> {"ZNE", "ZNE", "ZNE", "ENZ", "EZN", "LQT", "LQ", "ZRT", "RZ", "Z", "N", "ZNEX", "NE1Z2"}
    [] m = "P" /\ rot = "no"  -> {"ZNE", "ENZ", "LQT", "QL", "ZRT", "ZN", "Z", "E", "ZNEX"}
    [] m = "S" /\ rot = "lqt" -> {"ZNE", "ZNE", "ZNE", "ENZ", "EZN", "LQT", "LQ", "QTL", "ZRT", "RZ", "Z", "Q", "ZNEX", "XQLT1"}
    [] m = "S" /\ rot = "rt"  -> {"ZNE", "ZNE", "ZNE", "ENZ", "NE", "EN", "LQT", "ZRT", "RZ", "Z", "N", "ZNEX"}
    [] OTHER                  -> {"LQT", "QL", "ZRT", "RZ", "ZNR", "R", "L", "RTZX"}
Band(i) == R({"XX.A..BH", "XX.A..BH", "XX.A..HH", "XX.A..HN", "XX.B..BH", "XX.A.00.BH", "YY.A..BH"})
Record(m, rot) == [id |-> Band(0), slot |-> R(0..2), comps |-> R(Comps(m, rot)), n |-> R(300..420), on |-> R(110..150), onf |-> R({0, 0, 1, 2}), sr |-> R({5, 10, 10, 10, 4}),
                   seed |-> R(1..9999), baz |-> R(0..359), inc |-> R(5..60), slo |-> R({54, 60, 64, 71, 78}), lat |-> R((-60)..60), lon |-> R((-180)..180),
                   evdist |-> R({35, 50, 62, 71, 84, 20, 100}), evaz |-> R(0..359), depth |-> R({0, 10, 100, 600}), sta |-> R(0..2), int |-> Chance(15)]
Ops(z) == R({<<"rf">>, <<"rf">>, <<"rf", "moveout">>, <<"rf", "moveout", "trim2">>, <<"rf", "ppoints", "moveout">>, <<"moveout">>, <<"moveout", "rf">>, <<"rfstats">>, <<"rfstats", "rf">>,
             <<"trim2", "rf">>, <<"ppoints">>, <<"trim2", "moveout">>, <<"rfstats", "rf", "moveout">>, <<"rf", "rf2">>})
Init == c = <<>> /\ step = 0
PickOps == /\ step = 0 /\ step' = 1
           /\ c' = [ops |-> Ops(0), method |-> R({"P", "P", "S"}), rot |-> R({"lqt", "lqt", "rt", "no"}), nrec |-> R(2..5), dm |-> R({"time", "time", "waterlevel", "iterative", "multitaper"}),
                    flt |-> Chance(30), down |-> Chance(30), trim |-> Chance(30), win |-> R(0..2), norm |-> R(0..2), mix |-> Chance(20), samestart |-> Chance(25),
                    mo |-> R(0..3), ref |-> R({64, 64, 58, 70}), model |-> R(0..1), pp |-> R({0, 35, 50, 200}), ppph |-> R(0..2), t1 |-> R((-100)..(-60)), t2 |-> R(100..190), reft |-> R(0..2)]
PickRecs == /\ step = 1 /\ step' = 2 /\ c' = [c |-> c, recs |-> [i \in 1..c.nrec |-> Record(c.method, c.rot)]]
\* the same station may carry several channels with the same onset, the same channel several onsets
Key(r) == <<r.id, IF c.c.samestart THEN (1000 * r.on + 250 * r.onf) \div r.sr ELSE r.slot>>
Dedup == /\ step = 2 /\ step' = 3
         /\ c' = [c EXCEPT !.recs = FoldL(LAMBDA a, r : IF \E i \in 1..Len(a) : Key(a[i]) = Key(r) THEN a ELSE Append(a, r), <<>>, c.recs)]
PickRuns == /\ step = 3 /\ step' = 4
            /\ c' = c @@ [keys |-> [j \in 1..3 |-> [i \in 1..Len(c.recs) |-> [k \in 1..Len(c.recs[i].comps) |-> R(0..999)]]],
                          sub |-> [i \in 1..Len(c.recs) |-> Chance(60)], contig |-> R(0..2)]
Out == step = 4 /\ step' = 5 /\ UNCHANGED c /\ (Len(c.recs) > 1 => Emit(c))
Next == PickOps \/ PickRecs \/ Dedup \/ PickRuns \/ Out
Spec == Init /\ [][Next]_vars
=============================================================================
