------------------------------- MODULE LawsGen -------------------------------
(* Two calls (or three) of one array deconvolution whose results are tied by a law.                                       *)
EXTENDS Kit
VARIABLES c, step
vars == <<c, step>>
LawsOf == [time |-> {"linear", "scaled", "alone", "order"}, water |-> {"linear", "scaled", "alone", "order", "shift", "gauss", "level", "info", "source"},
           iter |-> {"scaled", "alone", "order"}, multi |-> {"linear", "scaled", "alone", "order", "shift", "gauss", "noise", "trend", "itself", "move"}]
Init == c = <<>> /\ step = 0
PickOp == step = 0 /\ step' = 1 /\ c' = [m |-> <<"time", "water", "water", "iter", "multi", "multi", "multi">>[R(1..7 - step)], n |-> R({60, 61, 80, 99, 120}), ls |-> R(14..40), ln |-> R(30..55)]
PickLaw == step = 1 /\ step' = 2 /\ c' = c @@ [law |-> R(LawsOf[c.m]), lnf |-> IF Chance(30) THEN c.n ELSE c.ln]
Arr(n) == [i \in 1..n |-> R({0, R((-9)..9)})]
PickArrays == step = 2 /\ step' = 3 /\ c' = c @@ [src |-> Arr(c.ls), r1 |-> Arr(c.n), r2 |-> Arr(c.n), n1 |-> Arr(c.lnf), n2 |-> Arr(c.lnf), f |-> R({2, 3, -1, 10, -4}), k |-> R(1..9), g |-> R(1..3), g2 |-> R(2..3),
              sr |-> R({1, 2, 4}), T |-> R({10, 12, 15}), pat |-> [i \in 1..9 |-> R((-9)..9)], T2 |-> R({12, 16}), K |-> R({2, 3, 3, 4}), tband |-> R({5, 8}), olap |-> R({2, 4}), gs |-> R(3..20), ts |-> R(0..20), fill |-> Chance(20), trend |-> R((-5)..5)]
Out == step = 3 /\ step' = 4 /\ UNCHANGED c /\ Emit(c)
Next == PickOp \/ PickLaw \/ PickArrays \/ Out
Spec == Init /\ [][Next]_vars
=============================================================================
