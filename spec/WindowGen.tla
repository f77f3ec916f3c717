----------------------------- MODULE WindowGen -----------------------------
(* Random streams and sequences of trim/slice requests (-simulate).         *)
EXTENDS Kit
CONSTANTS MaxTr, MaxOps
VARIABLES trs, ops, step, pick
vars == <<trs, ops, step, pick>>
Trc(d, s) == [start |-> s, delta |-> R({100, 200, 500, 1000, 40}), n |-> R({1, 2, 3, 11, 26}),
              onset |-> s + R({0, 50, 400, 1270, 3000, -2000})]
Init == trs = <<>> /\ ops = <<>> /\ step = 0 /\ pick = 0
Streams == /\ step = 0 /\ step' = 1 /\ UNCHANGED <<ops, pick>>
           /\ trs' = [i \in 1..R(1..MaxTr) |-> Trc(0, R({0, 300, -4000, 7130, 90000}))]
Draw == /\ step = 1 /\ step' = 2 /\ UNCHANGED <<trs, ops>>
        /\ pick' = [k1 |-> R({"none", "rel", "rel", "abs"}), k2 |-> R({"none", "rel", "rel", "abs"}),
                    v1 |-> R({-10000, -3000, -1000, -430, -60, 0, 10, 230, 1000}),
                    v2 |-> R({-430, -60, 0, 10, 100, 230, 1000, 2340, 5000, 40000}),
                    x |-> trs[R(1..Len(trs))].onset, op |-> R({"trim", "slice"}),
                    ref |-> R({"onset", "starttime", "endtime", "abs"}), nearest |-> R(BOOLEAN),
                    more |-> R({"plain", "pad", "keep"}), last |-> Chance(40)]
Bound(k, v, x) == IF k = "none" THEN [k |-> k, v |-> 0] ELSE IF k = "rel" THEN [k |-> k, v |-> v]
                  ELSE [k |-> k, v |-> x + v]
Add == /\ step = 2 /\ UNCHANGED trs /\ pick' = 0
       /\ LET p == pick
              v2 == IF p.v2 < p.v1 THEN p.v1 ELSE p.v2     \* start before end
          IN ops' = Append(ops, [op |-> p.op, s |-> Bound(p.k1, p.v1, p.x), e |-> Bound(p.k2, v2, p.x),
                                 ref |-> p.ref, refv |-> p.x,
                                 pad |-> p.more = "pad" /\ p.op = "trim", keep |-> p.more = "keep" /\ p.op = "slice",
                                 nearest |-> p.nearest \/ (p.more = "pad" /\ p.op = "trim"), fill |-> -7])
       /\ step' = IF pick.last \/ Len(ops') = MaxOps THEN 3 ELSE 1
Out == step = 3 /\ step' = 4 /\ UNCHANGED <<trs, ops, pick>> /\ Emit([traces |-> trs, ops |-> ops])
Next == Streams \/ Draw \/ Add \/ Out
Spec == Init /\ [][Next]_vars
=============================================================================
