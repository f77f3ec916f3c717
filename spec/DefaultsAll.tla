----------------------------- MODULE DefaultsAll -----------------------------
(* All options and values, one at a time: the other options left out, or all at their first other value.                         *)
EXTENDS DefaultsTable
VARIABLES q
Alts(t) == Len(t.a)
Queries == UNION {{<<o, i, k, b>> : k \in 1..Alts(Table[o][i]), b \in {0, 1}} : <<o, i>> \in {<<o, i>> \in (DOMAIN Table) \X (1..20) : i <= Len(Table[o])}}
Init == q = <<>>
Base(T, b, i) == [j \in 1..Len(T) |-> IF Alts(T[j]) = 0 THEN 0 ELSE IF T[j].d = "!" THEN 1 ELSE IF b = 1 /\ j # i THEN 1 ELSE 0]
Out(T, s, np) == [j \in 1..Len(T) |-> IF s[j] # 0 THEN T[j].a[s[j]] ELSE IF j <= np THEN T[j].d ELSE ""]
Session(o, i, k, b) ==
  LET T == Table[o]
      s == Base(T, b, i)
      u == [s EXCEPT ![i] = k]
      byPosition == T[i].pos /\ \A j \in 1..i : T[j].pos
      np == IF byPosition THEN i ELSE 0
      plain == [np |-> 0, vals |-> Out(T, s, 0)]
      written == IF s[i] = 0 /\ T[i].d # "" THEN <<[np |-> 0, vals |-> [Out(T, s, 0) EXCEPT ![i] = T[i].d]]>> ELSE <<>>
  IN <<plain, [np |-> 0, vals |-> Out(T, u, 0)], plain, [np |-> np, vals |-> Out(T, u, np)]>> \o written
Next == q = <<>> /\ \E x \in Queries : q' = x /\ Emit([op |-> x[1], input |-> (x[2] + x[3] + 2 * x[4]) % 4, names |-> [j \in 1..Len(Table[x[1]]) |-> Table[x[1]][j].n], calls |-> Session(x[1], x[2], x[3], x[4])])
Spec == Init /\ [][Next]_q
=============================================================================
