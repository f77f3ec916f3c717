----------------------------- MODULE HistoryGen -----------------------------
(* Histories of calls; every behaviour is one process.  A history uses a few kinds of calls and few arguments, so   *)
(* that calls that share internal state meet.                                                                        *)
EXTENDS Kit
CONSTANT Len0
VARIABLES h, focus, done
vars == <<h, focus, done>>
Ray == <<"moveout", "moveout", "mo_obj", "delays", "stretch", "ppoints", "ppdist", "load", "badmoveout", "badpp", "badmodel">>
Ex == <<"example", "example", "exampleS", "read", "rfstats", "moveout">>
Files == <<"write", "write", "badwrite", "plainh5", "hdr", "write">>
Calc == <<"rf", "rf", "badrf", "harmonics", "boxes", "profile", "stack", "group", "hdr", "moveout", "ppoints">>
Meta == <<"rfstats1", "rfstats1", "rfstats1", "rfstats", "badstats", "load">>
Focus(i) == LET w == R({"ray", "ray", "ex", "files", "files", "calc", "meta", "mix", "mix"})
                pool == CASE w = "ray" -> Ray [] w = "ex" -> Ex [] w = "files" -> Files [] w = "calc" -> Calc [] w = "meta" -> Meta
                          [] w = "mix" -> Ray \o Files \o Calc \o Ex \o Meta
            IN [kinds |-> pool, models |-> R({{"iasp91"}, {"iasp91", "A"}, {"A", "B"}}), phs |-> R({{"Ps"}, {"Ps", "Ppss"}, {"Sp"}, {"Ps", "Sp", "Ppps"}}),
                refs |-> R({{640, 777}, {680, 640}, {640, 650}, {500, 590, 777}, {640, 643}, {641, 640}}), slows |-> R({{480}, {480, 640}, {480, 482}}),
                ks |-> R({{0}, {0, 1}, {2, 3}, {0, 1, 2, 3}}), fmts |-> R({{"H5"}, {"Q", "H5"}, {"SAC", "Q", "H5"}})]
One(g) == [f |-> g.kinds[R(1..Len(g.kinds))], spoil |-> Chance(50), model |-> R(g.models), ph |-> R(g.phs), ref |-> R(g.refs), slow |-> R(g.slows),
           k |-> R(g.ks), depth |-> R({0, 50, 50, 51, 120}), fmt |-> R(g.fmts), arg |-> R(0..3)]
Init == h = <<>> /\ focus = <<>> /\ done = FALSE
Pick == focus = <<>> /\ focus' = <<Focus(Len(h))>> /\ UNCHANGED <<h, done>>
Call == /\ focus # <<>> /\ Len(h) < Len0 /\ h' = Append(h, One(focus[1])) /\ UNCHANGED <<done, focus>>
Out == /\ Len(h) = Len0 /\ ~ done /\ done' = TRUE /\ UNCHANGED <<h, focus>> /\ Emit(h)
Next == Pick \/ Call \/ Out
Spec == Init /\ [][Next]_vars
=============================================================================
