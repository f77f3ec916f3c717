------------------------------ MODULE RfCalcGen ------------------------------
EXTENDS Kit
VARIABLES c, step
vars == <<c, step>>
C == INSTANCE RfCalc WITH Comps <- {}, Records <- <<>>, opts <- 0, at <- 0, done <- 0, log <- 0
Baz == {<<5, 0>>, <<0, 5>>, <<-5, 0>>, <<0, -5>>, <<3, 4>>, <<-4, 3>>, <<-3, -4>>, <<4, -3>>, <<-4, -3>>, <<3, -4>>}
Inc == {<<5, 0>>, <<0, 5>>, <<3, 4>>, <<4, 3>>}
Record(n) == [b |-> R(Baz), i |-> R(Inc), comps |-> R({"ZNE", "ENZ", "NZE", "ZEN", "EZN", "ZNE", "ZNE", "ZN", "NE", "EN", "Z", "E"}), n |-> n,
              on |-> R(1..n) - 1, sta |-> R(1..2), data |-> [k \in 1..3 |-> [j \in 1..n |-> R((-9)..9)]]]
\* records of the stepwise runs: name of wavelet, number of samples etc. are made by the driver from the seed
Long(z) == [b |-> R(0..359), i |-> R(0..60), comps |-> R({"ZNE", "ENZ", "NZE", "ZNE", "ZNE", "ZNE", "LQT", "LQ", "TQL", "ZRT", "ZR", "RZ", "Z", "Q", "ZNEX"}),
         n |-> R(500..560), on |-> R(180..230), onf |-> R({0, 0, 1, -1}), sta |-> R(1..2), seed |-> R(1..9999), sr |-> R({5, 10, 10, 10, 20})]
Init == c = <<>> /\ step = 0
PickOpts == /\ step = 0 /\ step' = 1
            /\ c' = [kind |-> R({"exact", "plan"}), filter |-> Chance(45), trim |-> Chance(55), down |-> Chance(40), dec |-> Chance(70), rot |-> R({"lqt", "lqt", "rt", "none"}),
                     method |-> R({"P", "S"}), given |-> R({"header", "arg", "both", "converted"})]
PickMore == /\ step = 1 /\ step' = 2
            /\ c' = c @@ [ta |-> R((-9)..0), tb |-> R(0..9), deflrot |-> Chance(50), nrec |-> R(1..4), interleave |-> Chance(50), flt |-> R(0..2), dfreq |-> R(0..4), dfloat |-> Chance(40), hi |-> Chance(40),
                          dm |-> R({"time", "waterlevel", "iterative", "multitaper", "func"}), deflm |-> Chance(20), win |-> R(0..3), arg |-> R(0..3), src |-> Chance(25), reg |-> Chance(30),
                          t1 |-> R((-170)..(-130)), t2 |-> R(200..290)]
PickRecs == /\ step = 2 /\ step' = 3
            /\ c' = [c |-> c, recs |-> [i \in 1..c.nrec |-> IF c.kind = "exact" THEN Record(R(3..9)) ELSE Long(i)]]
Out == step = 3 /\ step' = 4 /\ UNCHANGED c
       /\ \E o \in {[filter |-> c.c.filter /\ c.c.kind = "plan", trim |-> c.c.trim, down |-> c.c.down /\ c.c.kind = "plan", dec |-> c.c.dec /\ c.c.kind = "plan",
                     rot |-> c.c.rot, method |-> c.c.method]} :
             Emit(c @@ [opts |-> o, plans |-> [i \in 1..Len(c.recs) |-> C!PlanFor(o, Len(c.recs[i].comps))]])
Next == PickOpts \/ PickMore \/ PickRecs \/ Out
Spec == Init /\ [][Next]_vars
=============================================================================
