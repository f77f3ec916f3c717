----------------------------- MODULE IterateGen -----------------------------
(* Catalogues, channel groups with epochs, requests, and for every combination what the data provider does.                   *)
EXTENDS Kit
VARIABLES c, step
vars == <<c, step>>
Epoch(i, f, t) == [from |-> f, to |-> t, comps |-> R({"ZNE", "ZNE", "Z12", "123", "ZN", "Z"}), lat |-> R((-20000)..20000), lon |-> R((-180000)..180000), elev |-> R(0..3000), form |-> 0]
Cuts(i) == LET a == 1000 * R(0..400000) b == 1000 * R(400001..900000) IN R({<<<<0, 900000000>>>>, <<<<0, a>>, <<a + 1, 900000000>>>>, <<<<0, a>>, <<b, 900000000>>>>, <<<<a, b>>>>, <<<<0, a>>, <<a + 1, b>>, <<b + 1, 900000000>>>>})
Group(i) == LET k == TLCEval(Cuts(i)) IN [net |-> R({"XX", "YY"}), sta |-> R({"AA", "BB", "AA"}), loc |-> R({"", "00", "10"}), band |-> R({"BH", "HH", "BH", "BL"}), epochs |-> [j \in 1..Len(k) |-> Epoch(j, k[j][1], k[j][2])]]
Code(g) == <<g.net, g.sta, g.loc, g.band>>
Init == c = <<>> /\ step = 0
PickGroups == step = 0 /\ step' = 1 /\ c' = [gr |-> [i \in 1..R({1, 2, 2, 3, 4}) |-> Group(i)], split |-> Chance(40)]
\* events at about the given distance from an epoch of the first group
Ev(i) == LET s == c.gr[1].epochs[1] d == R({R(25000..95000), R(31000..84000), R(31000..84000), R(50000..84000), R(5000..170000)}) IN
  [lat |-> LET x == s.lat + d IN IF x > 90000 THEN Max2(s.lat - d, 0 - 90000) ELSE x, lon |-> s.lon + R((-3000)..3000), depth |-> R({0, 10000, R(0..2000), R(0..700000)}), mag |-> R(40..90),
   t |-> IF Chance(80) THEN 1000 * R(0..900000) + R(0..999) ELSE LET g == TLCEval(c.gr[R(1..Len(c.gr))]) k == TLCEval(R(1..Len(g.epochs))) IN R({g.epochs[k].to - 1000 * R(0..5) - R(0..999), g.epochs[k].from + 1000 * R(0..5) + R(0..999), g.epochs[k].from}), pref |-> Chance(40), prefmag |-> Chance(20), lack |-> IF Chance(75) THEN "" ELSE R({"origin", "origin", "mag", "depth", "lat"})]
PickEvents == step = 1 /\ step' = 2 /\ c' = c @@ [ev |-> [i \in 1..R({1, 1, 2, 2, 3, 4}) |-> Ev(i)]]
PickRequest == /\ step = 2 /\ step' = 3
               /\ c' = c @@ [q |-> [phase |-> IF Chance(60) THEN "P" ELSE IF Chance(60) THEN "S" ELSE R({"PP", "SKS", "ScS", "PKP", "Pdiff", "SS"}), win |-> IF Chance(30) THEN <<>> ELSE <<R({0 - 30, 0 - 5, 0, 10, 0 - 100}), R({40, 80, 25})>>,
                                    pad |-> R({0, 0, 10, 10, 3, 25}), more |-> R({0, 0, 0, 5, 7}), deflt |-> Chance(40), delta |-> R({1000, 500, 1000, 250}), shift |-> R({0, 0, 200, 0 - 200, 400, 0 - 400}),
                                    range |-> IF Chance(50) THEN "default" ELSE R({"none", "wide", "wide"}), lo |-> R(0..60000), hi |-> R(60000..180000), pp |-> R({0, 0, 50}), form |-> R({"list", "catalog"}), bar |-> Chance(80), model |-> R({"iasp91", "iasp91", "ak135"})]]
Win == IF c.q.win # <<>> THEN c.q.win ELSE IF c.q.phase \in {"P", "PP", "PKP"} THEN <<-50, 150>> ELSE <<-100, 50>>
Nn == ((Win[2] - Win[1]) * 1000) \div c.q.delta
\* a provider may return more than it was asked for
Pp == c.q.more + ((IF c.q.deflt THEN 10 ELSE c.q.pad) * 1000) \div c.q.delta
Seg(cc, a, b, d, x) == [c |-> cc, a |-> a, b |-> b, diff |-> d, bad |-> x]
Comp(cc, type) ==
  LET N == TLCEval(Nn) P == TLCEval(Pp) x == R(2..(N - 12)) IN
  CASE type = "full" -> <<Seg(cc, 0 - P, N + P, 0, 0)>>
    [] type = "exact" -> <<Seg(cc, 0, N, 0, 0)>>
    [] type = "short" -> <<Seg(cc, R(0..7), N - R(0..7), 0, 0)>>
    [] type = "split" -> LET y == TLCEval(x) IN <<Seg(cc, 0 - P, y, 0, 0), Seg(cc, y + 1, N + P, 0, 0)>>
    [] type = "ring" -> LET y == TLCEval(x) IN <<Seg(cc, 0 - P, y, 0, 0), Seg(cc, y + 1, y + 4, 0, 0), Seg(cc, y + 5, N + P, 0, 0)>>
    [] type = "overlap" -> LET y == TLCEval(x) IN <<Seg(cc, 0 - P, y + 3, 0, 0), Seg(cc, y, N + P, R({0, 0, 1}), 0)>>
    [] type = "gap" -> LET y == TLCEval(x) IN <<Seg(cc, 0 - P, y, 0, 0), Seg(cc, y + R({2, 3, 9}), N + P, 0, 0)>>
    [] type = "gapoutside" -> IF P < 4 THEN <<Seg(cc, 0 - P, N + P, 0, 0)>> ELSE <<Seg(cc, 0 - P, 0 - 3, 0, 0), Seg(cc, R({0 - 1, 0, 2}), N + P, 0, 0)>>
    [] type = "outside" -> IF P < 4 THEN <<>> ELSE <<R({Seg(cc, 0 - P, 0 - 1, 0, 0), Seg(cc, N + 1, N + P, 0, 0)})>>
    [] type = "contained" -> LET y == TLCEval(x) IN <<Seg(cc, 0 - P, N + P, 0, 0), Seg(cc, y, y + 5, R({0, 1}), 0)>>
    [] type = "bad" -> LET y == TLCEval(x) IN <<Seg(cc, 0 - P, y, 0, 0), Seg(cc, y + 1, N + P, 0, R({1, 2}))>>
    [] type = "badoutside" -> IF P < 4 THEN <<Seg(cc, 0 - P, N + P, 0, 0)>> ELSE <<Seg(cc, 0 - P, 0 - 2, 0, 1), Seg(cc, 0 - 1, N + P, 0, 0)>>
    [] type = "twice" -> <<Seg(cc, 0 - P, N + P, 0, 0), Seg(cc, 0 - P, N + P, 0, 0)>>
Odd == {"exact", "short", "split", "ring", "overlap", "gap", "gapoutside", "outside", "contained", "bad", "badoutside", "twice", "overlap", "gap", "overlap", "contained"}
CompSets == {<<"Z", "N", "E">>, <<"Z", "N", "E">>, <<"Z", "1", "2">>, <<"E", "N", "Z">>, <<"1", "2", "3">>}
OddSets == {<<"Z", "N">>, <<"Z">>, <<"Z", "N", "E", "1">>, <<"1", "2", "Z", "N", "E">>}
Script(p) == LET what == IF Chance(75) THEN "data" ELSE R({"raise", "raise", "none", "empty"}) cs == TLCEval(IF Chance(85) THEN R(CompSets) ELSE R(OddSets))
                 odd == TLCEval(IF Chance(40) THEN 0 ELSE R(1..Len(cs))) both == Chance(10) out == TLCEval(IF Len(cs) > 3 /\ Chance(50) THEN 4 ELSE 0) IN
             [what |-> what, how |-> R(0..3), stale |-> Chance(30), rev |-> Chance(30),
              segs |-> IF what # "data" THEN <<>> ELSE FoldL(LAMBDA a, i : a \o Comp(cs[i], IF i = out THEN "outside" ELSE IF i = odd \/ (both /\ odd # 0) THEN R(Odd) ELSE "full"), <<>>, [i \in 1..Len(cs) |-> i])]
PickScript == step = 3 /\ step' = 4 /\ c' = c @@ [script |-> [a \in 1..Len(c.ev) |-> [b \in 1..Len(c.gr) |-> TLCEval(Script(<<a, b>>))]]]
Distinct == Cardinality({Code(c.gr[i]) : i \in 1..Len(c.gr)}) = Len(c.gr) /\ Cardinality({c.ev[i].t : i \in 1..Len(c.ev)}) = Len(c.ev)
Out == step = 4 /\ step' = 5 /\ UNCHANGED c /\ (IF Distinct THEN Emit(c @@ [N |-> Nn, P |-> Pp]) ELSE TRUE)
Next == PickGroups \/ PickEvents \/ PickRequest \/ PickScript \/ Out
Spec == Init /\ [][Next]_vars
=============================================================================
