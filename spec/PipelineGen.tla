---------------------------- MODULE PipelineGen ----------------------------
(* A world (channel groups, events, available records, options) and a sequence of commands over its directories.         *)
(* d = the directories so far: [fmt, kind, done] with done = the steps of its records.                                     *)
EXTENDS Kit
VARIABLES c, d, p, step
vars == <<c, d, p, step>>
Group(i) == [net |-> R({"XX", "XX", "YY"}), sta |-> R({"AA", "BB", "AA"}), loc |-> R({"", "00", "", "10"}), band |-> IF Chance(90) THEN "BH" ELSE R({"HH", "LH"}), lat |-> R((-2000)..2000), lon |-> R((-2000)..2000), elev |-> R(0..3000)]
Code(g) == <<g.net, g.sta, g.loc, g.band>>
Init == c = <<>> /\ d = <<>> /\ p = <<>> /\ step = 0
PickGroups == step = 0 /\ step' = 1 /\ UNCHANGED <<d, p>> /\ c' = [gr |-> LET a == TLCEval([i \in 1..R({1, 2, 2, 3}) |-> Group(i)]) IN IF Chance(20) THEN Append(SubSeq(a, 1, Min2(2, Len(a))), IF Chance(50) THEN [a[1] EXCEPT !.band = IF @ = "BH" THEN "HH" ELSE "BH"] ELSE [a[1] EXCEPT !.loc = IF @ = "" THEN "00" ELSE ""]) ELSE a, route |-> R({"plugin", "callable", "file", "callable"}), base |-> R(0..90000), gap |-> R({1, 2, 9, 60, 3600, 86400, 86400, 260000})]
Ev(i) == [lat |-> R((-3000)..3000), lon |-> R(50000..78000), depth |-> R({0, 10000, R(0..500000)}), mag |-> R(40..90), t |-> 1000 * (c.base + (IF c.route = "file" THEN 86400 ELSE c.gap) * ((3 * i) % 5)) + R({0, 0, 0, 500, 999, 1, R(0..999)}), pref |-> Chance(20), prefmag |-> FALSE]
PickEvents == step = 1 /\ step' = 2 /\ UNCHANGED <<d, p>> /\ c' = c @@ [ev |-> [i \in 1..R({1, 2, 2, 3, 4}) |-> Ev(i)]]
What(q) == IF Chance(75) THEN "data" ELSE R({"raise", "raise", "none", "two", "gap", "empty"})
PickWorld == /\ step = 2 /\ step' = 3 /\ UNCHANGED <<d, p>>
             /\ c' = c @@ [script |-> [e \in 1..Len(c.ev) |-> [g \in 1..Len(c.gr) |-> What(<<e, g>>)]], how |-> R(0..3), phase |-> R({"P", "P", "S"}), 
                           frac |-> R({100, 200, 300, 700, 800}), delta |-> R({200, 100, 200}), rf |-> [deconvolve |-> R({"time", "waterlevel", "waterlevel", "freq", "iterative", "multitaper"}), rotate |-> R({"ZNE->LQT", "ZNE->LQT", "NE->RT"}), trim |-> Chance(60), filter |-> Chance(70), down |-> Chance(20)],
                           pp |-> R({40, 50, 50}), order |-> Chance(50)]
DataSteps == {<<>>, <<>>, <<"calc">>, <<"calc", "moveout">>}
Fmts == {"Q", "SAC", "H5"}
Sub(i) == IF Chance(75) THEN [k \in 1..Len(c.ev) |-> k] ELSE TLCEval(SelectSeq([k \in 1..Len(c.ev) |-> k], LAMBDA k : R({0, 1}) = 1))
Cmd(op, in, fmt, steps) == [op |-> op, in |-> in, out |-> Len(d) + 1, fmt |-> fmt, steps |-> steps, sub |-> TLCEval(LET s == TLCEval(Sub(1)) IN IF s = <<>> THEN <<1>> ELSE s)]
Dir(fmt, kind, done) == [fmt |-> fmt, kind |-> kind, done |-> done]
DataCmd(i) == LET s == TLCEval(R(DataSteps)) f == TLCEval(R(Fmts)) IN <<Cmd("data", 0, f, s), Dir(f, "rec", s)>>
Raws == {i \in 1..Len(d) : d[i].kind = "rec" /\ d[i].done = <<>>}
Rfs == {i \in 1..Len(d) : d[i].kind = "rec" /\ d[i].done # <<>>}
Uncorrected == {i \in 1..Len(d) : d[i].kind = "rec" /\ d[i].done = <<"calc">>}
Stacks == {i \in 1..Len(d) : d[i].kind = "rec"}
More(i) ==
  LET k == TLCEval(R(1..14)) r == TLCEval(R(Stacks)) f == TLCEval(R(Fmts)) a == TLCEval(R(1..Len(d))) IN
  CASE k <= 3 /\ Raws # {} -> LET x == TLCEval(R(Raws)) s == TLCEval(R({<<"calc">>, <<"calc", "moveout">>})) IN <<Cmd("calc", x, d[x].fmt, s), Dir(d[x].fmt, "rec", s)>>
    [] k \in 4..6 /\ Uncorrected # {} -> LET x == TLCEval(R(Uncorrected)) IN <<Cmd("moveout", x, d[x].fmt, <<"moveout">>), Dir(d[x].fmt, "rec", <<"calc", "moveout">>)>>
    [] k \in {6, 7, 8} -> <<Cmd("convert", r, f, <<>>), Dir(f, "rec", d[r].done)>>
    [] k \in {9, 13} -> <<Cmd("stack", r, d[r].fmt, <<>>), Dir(d[r].fmt, "stack", d[r].done)>>
    [] k \in {10, 14} /\ Rfs # {} -> LET x == TLCEval(R(Rfs)) IN <<Cmd("profile", x, d[x].fmt, <<>>), Dir(d[x].fmt, "profile", d[x].done)>>
    [] k = 11 -> <<c.plan[a], <<>>>>
    [] OTHER -> DataCmd(i)
\* steps 3..12: choose a command, then add it
Choose == /\ step \in {3, 5, 7, 9, 11, 13} /\ step' = step + 1 /\ UNCHANGED <<c, d>>
          /\ p' = TLCEval(IF step = 3 THEN DataCmd(step) ELSE IF step > 9 /\ Chance(25) THEN <<>> ELSE More(step))
Add == /\ step \in {4, 6, 8, 10, 12, 14} /\ step' = step + 1 /\ UNCHANGED p
       /\ c' = IF p = <<>> THEN c ELSE IF Has(c, "plan") THEN [c EXCEPT !.plan = Append(@, p[1])] ELSE c @@ [plan |-> <<p[1]>>]
       /\ d' = IF p = <<>> \/ p[2] = <<>> THEN d ELSE Append(d, p[2])
Distinct == Cardinality({Code(c.gr[i]) : i \in 1..Len(c.gr)}) = Len(c.gr)
Out == step = 15 /\ step' = 100 /\ UNCHANGED <<c, d, p>> /\ (IF Distinct THEN Emit(c @@ [dirs |-> d]) ELSE TRUE)
Next == PickGroups \/ PickEvents \/ PickWorld \/ Choose \/ Add \/ Out
Spec == Init /\ [][Next]_vars
=============================================================================
