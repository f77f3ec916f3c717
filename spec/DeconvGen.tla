------------------------------ MODULE DeconvGen ------------------------------
EXTENDS Kit
VARIABLES c, step
vars == <<c, step>>
Arr(n) == [i \in 1..n |-> R({0, R((-3)..3)})]
Init == c = <<>> /\ step = 0
PickOp == /\ step = 0 /\ step' = 1
          /\ c' = [op |-> R({"time", "water"}), nr |-> R(1..3), ls |-> R(1..9), N |-> R({4, 6, 8, 12}), lr |-> R(1..8), difflen |-> Chance(25)]
PickArrays == /\ step = 1 /\ step' = 2
              /\ c' = [op |-> c.op, N |-> c.N, src |-> Arr(IF c.op = "time" THEN c.ls ELSE R(1..c.N)),
                       rsp |-> [i \in 1..c.nr |-> Arr(IF c.op = "water" THEN IF i = 1 THEN c.N ELSE R(1..c.N) ELSE IF c.difflen /\ i > 1 THEN R(1..8) ELSE c.lr)]]
PickArgs == /\ step = 2 /\ step' = 3
            /\ c' = [c |-> c, shift |-> R((-6)..6), spiking |-> R({1, 5, 10, 20, 100}), defspik |-> Chance(15), length |-> R({0, 0, R(1..8)}), norm |-> R(-1..2), defnorm |-> Chance(15),
                     solver |-> R({"toeplitz", "scipy", "own", "default"}), form |-> R({"list", "tuple", "single", "array2"}),
                     wl |-> R({1, 5, 20, 100}), gauss |-> R({0, 1, 2, 3}), tshift |-> R((-4)..8), sr |-> R({1, 2, 10, 4}), wnorm |-> R({"none", "idx", "src"}),
                     idx |-> R(0..2), info |-> Chance(25), cut |-> R(1..12), nfftarg |-> Chance(40), ints |-> Chance(30)]
Out == step = 3 /\ step' = 4 /\ UNCHANGED c /\ Emit(c)
Next == PickOp \/ PickArrays \/ PickArgs \/ Out
Spec == Init /\ [][Next]_vars
=============================================================================
