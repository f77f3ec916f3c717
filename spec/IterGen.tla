------------------------------ MODULE IterGen ------------------------------
EXTENDS Kit
VARIABLES c, step
vars == <<c, step>>
Init == c = <<>> /\ step = 0
PickSrc == /\ step = 0 /\ step' = 1
           /\ c' = [w |-> [i \in 1..R(1..4) |-> IF i = 1 THEN R({-3, -2, -1, 1, 2, 3}) ELSE R((-3)..3)], z |-> R({0, 0, 1, 3, 5, 8, 12}), nr |-> R(1..3), gauss |-> R({0, 0, 1, 2, 3}), copies |-> R(0..3)]
\* a response: sums of copies of the source, or any integers
Part(n) == [i \in 1..n |-> R({0, R((-3)..3)})]
PickRsp == /\ step = 1 /\ step' = 2
           /\ c' = [c |-> c, off |-> R(0..5), rsp |-> [i \in 1..c.nr |-> IF c.copies > 0 THEN Part(5) ELSE Part(8)]]
PickArgs == /\ step = 2 /\ step' = 3
            /\ c' = [c |-> c, extra |-> R(0..9), sr |-> R({1, 2, 4}), T |-> R({2, 4, 6, 8}), deft |-> Chance(10), k |-> R(1..4), itmax |-> R({0, 0, 1, 2, 5, 20, 100}), minderr |-> R({0, 10, 1000, 10000, 100000, 300000}),
                     mute |-> Chance(25), norm |-> R(-1..2), defnorm |-> Chance(20), pad |-> Chance(40), form |-> R({"list", "tuple", "single", "array2"}), ints |-> Chance(30)]
Out == step = 3 /\ step' = 4 /\ UNCHANGED c /\ Emit(c)
Next == PickSrc \/ PickRsp \/ PickArgs \/ Out
Spec == Init /\ [][Next]_vars
=============================================================================
