----------------------------- MODULE DefaultsGen -----------------------------
(* Sessions: calls of one operation, with three settings that differ in one option each, every one written down in several ways. *)
EXTENDS DefaultsTable
VARIABLES c, step
vars == <<c, step>>
Ops == DOMAIN Table
T == Table[c.op]
Init == c = [op |-> "", input |-> 0] /\ step = 0
PickOp == step = 0 /\ step' = 1 /\ c' = [op |-> R({o \in Ops : step = 0}), input |-> R(step..3)]
\* settings: for every option 0 (the default) or the number of another value
Alt(i) == IF Len(T[i].a) = 0 THEN 0 ELSE R(1..Len(T[i].a))
First(i) == IF T[i].d = "!" THEN Alt(i) ELSE IF Chance(65) THEN 0 ELSE Alt(i)
PickA == step = 1 /\ step' = 2 /\ c' = c @@ [a |-> [i \in 1..Len(T) |-> First(i)]]
Change(s, k) == [i \in 1..Len(s) |-> IF i = k THEN (IF T[i].d = "!" THEN Alt(i) ELSE IF s[i] # 0 /\ Chance(50) THEN 0 ELSE Alt(i)) ELSE s[i]]
PickB == step = 2 /\ step' = 3 /\ LET k == TLCEval(R(1..Len(T))) IN c' = c @@ [b |-> Change(c.a, k)]
PickC == step = 3 /\ step' = 4 /\ LET k == TLCEval(R(1..Len(T))) IN c' = c @@ [cc |-> Change(IF k > 1 THEN c.a ELSE c.b, k)]
\* how a call is written: the first options by position, the default of others left out or written down
Positions(s) == LET m == Cardinality({i \in 1..Len(T) : T[i].pos}) IN IF Chance(40) THEN 0 ELSE R(0..m)
Text(s, i, np) == IF s[i] # 0 THEN T[i].a[s[i]] ELSE IF T[i].d = "" \/ (i > np /\ Chance(50)) THEN "" ELSE T[i].d
Write(s) == LET np == TLCEval(Positions(s)) IN [np |-> np, vals |-> [i \in 1..Len(T) |-> Text(s, i, np)]]
Which(i) == IF i = 1 THEN 1 ELSE <<1, 1, 2, 3>>[R(1..4)]
PickCalls == step = 4 /\ step' = 5 /\ c' = c @@ [calls |-> [i \in 1..5 |-> TLCEval(Write(TLCEval(<<c.a, c.b, c.cc>>[Which(i)])))]]
Out == step = 5 /\ step' = 6 /\ UNCHANGED c /\ Emit([op |-> c.op, input |-> c.input, names |-> [i \in 1..Len(T) |-> T[i].n], calls |-> c.calls])
Next == PickOp \/ PickA \/ PickB \/ PickC \/ PickCalls \/ Out
Spec == Init /\ [][Next]_vars
=============================================================================
