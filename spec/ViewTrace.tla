------------------------------ MODULE ViewTrace ------------------------------
(* A line is a session: the traces at the beginning, the operations, and after each what the stream reports.                       *)
EXTENDS Kit
VARIABLE l
\* ---- text of numbers: n in tenths or hundredths
Digits(n) == ToString(n)
Pad(n, w) == LET t == ToString(n) IN IF w = 2 THEN (IF n < 10 THEN "0" \o t ELSE t) ELSE IF n < 10 THEN "00" \o t ELSE IF n < 100 THEN "0" \o t ELSE t
Dec1(n) == (IF n < 0 THEN "-" ELSE "") \o ToString(Abs(n) \div 10) \o "." \o ToString(Abs(n) % 10)
Dec2(n) == (IF n < 0 THEN "-" ELSE "") \o ToString(Abs(n) \div 100) \o "." \o Pad(Abs(n) % 100, 2)
Rate == [ms \in {100, 200, 500, 1000} |-> CASE ms = 100 -> "10.0" [] ms = 200 -> "5.0" [] ms = 500 -> "2.0" [] ms = 1000 -> "1.0"]
Upper == [P |-> "P", S |-> "S", Ps |-> "S", Sp |-> "P", p |-> "P", s |-> "S", PKS |-> "S", PcP |-> "P", SKKS |-> "S"]
MethodOf(p) == IF p = "" THEN "" ELSE Upper[p]
Id(t) == IF t.bare THEN "...BH" \o t.comp ELSE "XX.STA..BH" \o t.comp
Name(t) == IF t.type = "" THEN Id(t)
           ELSE MethodOf(t.phase) \o "rf" \o (IF t.type = "rf" THEN "" ELSE " " \o t.type) \o " " \o (IF t.bare THEN "(" \o t.comp \o ")" ELSE Id(t))
First(t) == (t.start - t.onset) \div 100
Final(t) == (t.start - t.onset + (IF t.npts = 0 THEN 0 ELSE t.npts - 1) * t.dl) \div 100
Onset(t) == "2011-02-25T13:15:" \o ToString(38 + t.onset \div 1000) \o "." \o Pad(t.onset % 1000, 3) \o "000Z"
Window(t) == Dec1(First(t)) \o "s - " \o Dec1(Final(t)) \o "s" \o (IF t.zero THEN "" ELSE " onset:" \o Onset(t))
Item(yes, text) == IF yes THEN <<text>> ELSE <<>>
Items(t) == Item(t.mag >= 0, "mag:" \o Dec1(t.mag)) \o Item(t.dist >= 0, "dist:" \o Dec1(t.dist)) \o Item(t.baz >= 0, "baz:" \o Dec1(t.baz)) \o Item(t.pos >= 0, "pos:" \o Dec2(t.pos) \o "km")
            \o Item(t.slow >= 0, "slow:" \o Dec2(t.slow)) \o Item(t.mv # "", "(" \o t.mv \o " moveout)") \o Item(t.masked /\ t.npts > 0, "(masked)")
Join(s, by) == FoldL(LAMBDA a, x : IF a = "" THEN x ELSE a \o by \o x, "", s)
Summary(t) == Name(t) \o " | " \o Window(t) \o " | " \o Rate[t.dl] \o " Hz, " \o ToString(t.npts) \o " samples | " \o Join(Items(t), " ")
\* ---- the stream
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Do(e, st, op) ==
  CASE op.o = "type" -> [i \in 1..Len(st) |-> [st[i] EXCEPT !.type = op.v]]
    [] op.o = "method" -> [i \in 1..Len(st) |-> [st[i] EXCEPT !.phase = op.v]]
    [] op.o = "hdr" -> IF op.i > Len(st) THEN st ELSE [st EXCEPT ![op.i] = IF op.n = "type" THEN [@ EXCEPT !.type = op.v] ELSE [@ EXCEPT !.phase = op.v]]
    [] op.o = "del" -> IF op.i > Len(st) THEN st ELSE [st EXCEPT ![op.i] = IF op.n = "type" THEN [@ EXCEPT !.type = ""] ELSE [@ EXCEPT !.phase = ""]]
    [] op.o = "add" -> Append(st, op.tr)
    [] op.o = "pop" -> IF op.i > Len(st) THEN st ELSE Without(st, op.i)
    [] op.o = "slice" -> SubSeq(st, op.j + 1, Min2(Len(st), op.j + op.i))
    [] OTHER -> st
States(e) == FoldL(LAMBDA a, op : Append(a, Do(e, a[Len(a)], op)), <<e.tr>>, e.ops)
Values(st, f) == {st[i][f] : i \in {j \in 1..Len(st) : st[j][f] # ""}}
One(S) == IF Cardinality(S) = 1 THEN CHOOSE v \in S : TRUE ELSE ""
\* different phases of the same kind (P, PcP): either that method or none
Methods(st) == LET V == Values(st, "phase") M == {MethodOf(v) : v \in V} IN IF Cardinality(V) <= 1 THEN {One(M)} ELSE {"", One(M)}
Step(st, o) ==
       Bad(o.exc = "", "cannot-be-asked")
  \cup Bad(o.type = One(Values(st, "type")), "type-of-the-stream")
  \cup Bad(o.method \in Methods(st), "method-of-the-stream")
  \cup Bad(Cardinality(Values(st, "type")) <= 1 \/ o.warned, "different-values-without-warning")
  \cup Bad(o.warned => Cardinality(Values(st, "type")) > 1 \/ Cardinality(Values(st, "phase")) > 1, "warning-without-reason")
  \cup Bad(Len(o.text) = Len(st), "number-of-traces")
  \cup Bad(Len(o.text) = Len(st) => \A i \in 1..Len(st) : st[i].on => o.text[i] = Summary(st[i]), "summary-of-the-trace")
  \cup Bad(Len(o.text) = Len(st) => \A i \in 1..Len(st) : ~st[i].on => o.plain[i], "summary-without-onset")
  \cup Bad(o.kept, "asking-changes-the-stream")
Clauses(e) == LET S == States(e) IN UNION {Step(S[k], e.obs[k]) : k \in 1..Len(e.obs)} \cup Bad(Len(e.obs) = Len(S), "session-incomplete")
Init == l = 1
Next == l <= Len(Tr) /\ l' = l + 1 /\ Report(l, Clauses(Tr[l]))
Spec == Init /\ [][Next]_l
=============================================================================
