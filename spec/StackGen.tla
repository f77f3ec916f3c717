------------------------------ MODULE StackGen ------------------------------
EXTENDS Kit
VARIABLES ids, trs, step
vars == <<ids, trs, step>>
\* what the traces of one id have in common; every id has its own value of everything (or lacks it)
IdRec(i) == [net |-> R({"XX", "YY", "XX", ""}), sta |-> R({"A", "B", "a", "A?", "12"}), loc |-> R({"", "00", "*"}), cha |-> R({"BHQ", "BHT", "HHQ", "Q", "bHQ"}),
             n |-> R({1, 2, 5, 9}), delta |-> R({100, 200, 500}), off |-> R({0, 400, 1000, 330, -700}),
             lat |-> R({0, 10, -20, 33}), lon |-> R({0, 15, -70}), ele |-> R({0, 1200}), coords |-> Chance(80),
             phase |-> R({"P", "S", ""}), moveout |-> R({"Ps", "Ppps", ""}), hasonset |-> Chance(85),
             dtype |-> R({"f8", "f8", "f4", "i8"}), hist |-> R(0..2)]
Init == ids = <<>> /\ trs = <<>> /\ step = 0
PickIds == /\ step = 0 /\ step' = 1 /\ UNCHANGED trs
           /\ ids' = [i \in 1..R(1..4) |-> IdRec(i)]
PickTraces == /\ step = 1 /\ step' = 2 /\ UNCHANGED ids
              /\ trs' = [i \in 1..R({1, 2, 3, 5, 9}) |->
                           [k |-> R(1..Len(ids)), start |-> R({0, 1000, 86400, -77000}),
                            vals |-> [j \in 1..9 |-> R((-9)..9) * R({1, 7, 100})]]]
Out == step = 2 /\ step' = 3 /\ UNCHANGED <<ids, trs>> /\ Emit([ids |-> ids, traces |-> trs])
Next == PickIds \/ PickTraces \/ Out
Spec == Init /\ [][Next]_vars
=============================================================================
