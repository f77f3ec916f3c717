------------------------------- MODULE HeapGen -------------------------------
(* Sequences of operations on a growing set of streams.  The generator keeps what it needs to know for the next call  *)
(* to be a valid one: kind of the stream, whether it has piercing points, whether its data may be a view.              *)
EXTENDS Kit
CONSTANT Len0
VARIABLES ss, ops, pick, done
vars == <<ss, ops, pick, done>>
One(k) == [kind |-> k, pp |-> FALSE, view |-> FALSE, pol |-> R({"P", "P", "S"}), n |-> R(1..3)]
Can(s, op) ==
  CASE op \in {"copy", "iterate", "write", "str", "edit"} -> TRUE
    [] op \in {"slice2", "trim2", "slice2", "plot_rf"} -> s.kind \in {"raw", "rf", "stack", "harm", "prof"}
    [] op = "rf" -> s.kind = "raw"
    [] op = "deconvolve" -> s.kind = "raw"
    [] op = "rfnodec" -> s.kind = "raw"
    [] op \in {"moveout", "ppoints", "harmonics", "stack", "rfstats"} -> s.kind = "rf"
    [] op = "profile" -> s.kind = "rf" /\ s.pp
    [] op = "plot_profile" -> s.kind = "prof"
    [] op = "editdata" -> ~ s.view
Names == {"copy", "iterate", "write", "str", "edit", "slice2", "trim2", "plot_rf", "rf", "rf1", "deconvolve", "rfnodec", "moveout", "moveout1", "ppoints",
          "harmonics", "stack", "rfstats", "profile", "plot_profile", "plot_profile1", "editdata", "stack1", "profile1", "profile2", "profile3", "ppoints1", "slice21", "trim21"}
Real(n) == CASE n = "rf1" -> "rf" [] n = "moveout1" -> "moveout" [] n = "stack1" -> "stack" [] n \in {"profile1", "profile2", "profile3"} -> "profile" [] n = "ppoints1" -> "ppoints"
             [] n = "slice21" -> "slice2" [] n = "trim21" -> "trim2" [] n = "plot_profile1" -> "plot_profile" [] OTHER -> n
Cands(i) == {n \in Names : Can(ss[i], Real(n))}
Init == ss = <<>> /\ pick = <<>> /\ ops = <<>> /\ done = FALSE
Start == ss = <<>> /\ ss' = <<One(R({"raw", "raw", "rf"}))>> /\ UNCHANGED <<done, pick>>
         /\ ops' = <<[op |-> "new", t |-> 0, r |-> 1, kind |-> ss'[1].kind, pol |-> ss'[1].pol, n |-> ss'[1].n, a |-> 0, b |-> 0]>>
Rec(op, t, r, s) == [op |-> op, t |-> t, r |-> r, kind |-> s.kind, pol |-> s.pol, n |-> s.n, a |-> R(0..3), b |-> R(0..3)]
NewStream == /\ ss # <<>> /\ Len(ss) < 6 /\ Len(ops) < Len0 /\ pick = <<>> /\ Chance(20)
             /\ ss' = Append(ss, One(R({"raw", "rf"}))) /\ UNCHANGED <<done, pick>>
             /\ ops' = Append(ops, Rec("new", 0, Len(ss) + 1, ss'[Len(ss')]))
After(s, op) == CASE op = "rf" -> [s EXCEPT !.kind = "rf"]
                  [] op = "deconvolve" -> [s EXCEPT !.kind = "dec"]
                  [] op \in {"rfnodec", "rfstats"} -> [s EXCEPT !.kind = "dec"]
                  [] op = "ppoints" -> [s EXCEPT !.pp = TRUE]
                  [] op = "slice2" -> [s EXCEPT !.view = TRUE]
                  [] OTHER -> s
Result(s, op) == CASE op = "copy" -> [s EXCEPT !.view = FALSE]
                   [] op = "slice2" -> [s EXCEPT !.view = TRUE]
                   [] op = "stack" -> [s EXCEPT !.kind = "stack", !.view = FALSE, !.pp = FALSE]
                   [] op = "harmonics" -> [s EXCEPT !.kind = "harm", !.view = FALSE, !.pp = FALSE]
                   [] op = "profile" -> [s EXCEPT !.kind = "prof", !.view = FALSE, !.pp = FALSE]
Choose == /\ ss # <<>> /\ pick = <<>> /\ Len(ops) < Len0 /\ UNCHANGED <<done, ss, ops>>
          /\ pick' = <<R(1..Len(ss))>>
Choose2 == /\ Len(pick) = 1 /\ pick' = Append(pick, Real(R(Cands(pick[1])))) /\ UNCHANGED <<done, ss, ops>>
Op == /\ Len(pick) = 2 /\ UNCHANGED done /\ pick' = <<>>
      /\ LET i == pick[1]
             op == pick[2]
             makes == op \in {"copy", "slice2", "stack", "harmonics", "profile"}
             full == makes /\ Len(ss) >= 7
             s1 == [ss EXCEPT ![i] = After(@, op)]
         IN IF full THEN UNCHANGED <<ss, ops>>
            ELSE /\ ss' = IF makes THEN Append(s1, Result(ss[i], op)) ELSE s1
                 /\ ops' = Append(ops, Rec(op, i, IF makes THEN Len(ss) + 1 ELSE 0, ss[i]))
Out == /\ Len(ops) = Len0 /\ ~ done /\ done' = TRUE /\ UNCHANGED <<ss, ops, pick>> /\ Emit(ops)
Next == Start \/ NewStream \/ Choose \/ Choose2 \/ Op \/ Out
Spec == Init /\ [][Next]_vars
=============================================================================
