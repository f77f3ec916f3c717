------------------------------- MODULE ViewGen -------------------------------
(* Sessions with one stream: traces are put in and taken out, headers set on traces and on the stream.            *)
EXTENDS Kit
VARIABLES c, step
vars == <<c, step>>
Types == {"", "rf", "profile", "harmonic"}
Phases == {"", "P", "S", "Ps", "Sp", "p", "s", "PKS", "PcP", "SKKS"}
Opt(p, S) == IF Chance(p) THEN -1 ELSE R(S)
Tr1(k) == [bare |-> Chance(15 + 0 * k), comp |-> R({"Z", "L", "Q", "R", "1"}), type |-> IF Chance(60) THEN "rf" ELSE R(Types), phase |-> IF Chance(50) THEN "P" ELSE R(Phases), on |-> Chance(85), zero |-> Chance(15),
          start |-> 100 * R({0, -5, 7, -250, 1234}), onset |-> 100 * R({0, 3, 10, 55, 199}), npts |-> R({0, 1, 2, 11, 600}), dl |-> R({100, 200, 500, 1000}),
          mag |-> Opt(50, {0, 5, 61, 70}), dist |-> Opt(50, {0, 304, 899, 1456}), baz |-> Opt(50, {0, 7, 1800, 3599}), pos |-> Opt(70, {0, 25, 12345}), slow |-> Opt(50, {5, 640, 1207}),
          mv |-> R({"", "", "Ps", "Sp"}), masked |-> Chance(15)]
Op(k) == LET o == TLCEval(R({"type", "method", "hdr", "hdr", "hdr", "del", "del", "add", "add", "pop", "copy", "slice", "wrap", "obspy"} \cup {"t" : i \in {k}})) n == TLCEval(R({"type", "phase"}))
         IN [o |-> IF o = "t" THEN "type" ELSE o, i |-> R(1..3), j |-> R(0..3), n |-> n, v |-> IF o = "t" \/ o = "type" THEN R(Types \ {""}) ELSE IF o = "method" THEN R({"P", "S"}) ELSE IF n = "type" THEN R(Types \ {""}) ELSE R(Phases \ {""}), tr |-> <<>>]
Init == c = <<>> /\ step = 0
PickTraces == step = 0 /\ step' = 1 /\ c' = [tr |-> [i \in 1..R(step..3) |-> TLCEval(Tr1(i))], more |-> [i \in 1..6 |-> TLCEval(Tr1(i))]]
PickOps == step = 1 /\ step' = 2 /\ c' = [tr |-> c.tr, more |-> c.more, ops |-> [i \in 1..R(step..6) |-> TLCEval(Op(i))]]
Out == step = 2 /\ step' = 3 /\ UNCHANGED c /\ Emit(c)
Next == PickTraces \/ PickOps \/ Out
Spec == Init /\ [][Next]_vars
=============================================================================
