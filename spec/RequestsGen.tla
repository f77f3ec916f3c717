---------------------------- MODULE RequestsGen ----------------------------
EXTENDS Kit
VARIABLES c, step
vars == <<c, step>>
Comp(i) == R({"Z", "N", "E", "L", "Q", "R", "T", "1", "2"})
CompSeq(i) == LET k == R(1..10) IN
  IF k <= 2 THEN <<"Z", "N", "E">> ELSE IF k = 3 THEN <<"L", "Q", "T">> ELSE IF k = 4 THEN <<"Q", "L", "T">> ELSE IF k = 5 THEN <<"R", "Z">> ELSE IF k = 6 THEN <<"Z", "R", "T">> ELSE RSeq({"Z", "N", "E", "L", "Q", "R", "T", "1", "2"}, 1, 5)
SrcSeq(i) == IF Chance(60) THEN <<"L", "Z">> ELSE R({<<"Q", "R">>, <<"Z">>, <<"L">>, <<"T">>, <<>>, <<"Z", "Q">>, <<"1">>})
Resp(i) == IF Chance(55) THEN [any |-> TRUE, c |-> <<>>] ELSE [any |-> FALSE, c |-> RSeq({"Z", "N", "E", "L", "Q", "R", "T", "X"}, 0, 4)]
DMethod(i) == IF Chance(80) THEN R({"time", "waterlevel", "freq", "iterative", "multitaper", "func"}) ELSE R({"", "Time", "foo", "water", "func2", "t", "P", "none"})
Phase(i) == IF Chance(40) THEN R({<<"P", "s">>, <<"S", "p">>, <<"P", "p", "p", "s">>, <<"P", "p", "s", "s">>, <<"P", "S">>, <<"S", "p", "p", "p">>, <<"P", "s", "s", "s">>}) ELSE RSeq({"P", "S", "p", "s"}, 0, 6)
Pos(i) == IF Chance(75) THEN "inside" ELSE R({"before", "start", "end", "after"})
Deconv(i) == [op |-> "deconv", comps |-> CompSeq(i), src |-> SrcSeq(i), resp |-> Resp(i), method |-> DMethod(i), win |-> R({"P", "S"}), fun |-> Chance(50), off |-> R((-400)..400), norm |-> Chance(20)]
RfReq(i) == [op |-> "rf", method |-> IF Chance(35) THEN "-" ELSE R({"P", "S", "P", "S", "", "PS", "p", "s", "Q", "SP", "Ps"}), phases |-> LET m == R(1..6) ph == R({"P", "S"}) IN TLCEval(IF m <= 3 THEN <<ph>> ELSE IF m = 4 THEN <<"P", "S">> ELSE IF m = 5 THEN <<"">> ELSE <<R({"P", "S", "PKP", "SKS", "Pdiff", "ScS", "p", "X1"})>>),
             recs |-> RSeq({"ZNE", "ZNE", "LQT", "ZRT", "LQ", "ZR"}, 1, 3), dec |-> IF Chance(20) THEN "-" ELSE DMethod(i), filter |-> Chance(50), trim |-> Chance(50), rotate |-> R({"ZNE->LQT", "NE->RT"}), win |-> Chance(30), nophase |-> Chance(10)]
Harm(i) == [op |-> "harm", comps |-> IF Chance(60) THEN R({<<"R">>, <<"T">>, <<"Q">>, <<"R", "T">>, <<"Q", "T">>}) ELSE IF Chance(50) THEN R({<<"T", "R">>, <<"T", "Q">>, <<"R", "Q">>, <<"R", "T", "Q">>, <<"R", "R">>, <<"Z">>, <<"L">>, <<>>, <<"Z", "T">>}) ELSE RSeq({"R", "T", "Q", "Z", "L", "r"}, 0, 3), has |-> IF Chance(50) THEN R({<<"R", "T", "Z">>, <<"Q", "T", "L">>, <<"R", "T", "Q">>}) ELSE RSeq({"R", "T", "Q", "Z", "L"}, 1, 4), nev |-> R(1..7), method |-> IF Chance(75) THEN R({"time", "freq"}) ELSE R({"", "Time", "fft", "tim", "waterlevel"}), fun |-> Chance(50)]
Move(i) == [op |-> "move", phase |-> Phase(i), none |-> Chance(15), ph |-> R({"P", "S"}), pos |-> IF Chance(40) THEN <<"inside", "inside">> ELSE [k \in 1..R(1..4) |-> Pos(k)], model |-> IF Chance(90) THEN "iasp91" ELSE "missing", direct |-> Chance(30), by |-> R({1, 10, 40, 99, 500}), slow |-> [k \in 1..4 |-> R({50, 64, 80})], ref |-> R({64, 64, 50, 80})]
PP(i) == [op |-> "pp", phase |-> IF Chance(40) THEN R({<<"P">>, <<"S">>, <<"P", "p", "s">>}) ELSE RSeq({"P", "S", "p", "s"}, 0, 5), none |-> Chance(15), ph |-> R({"P", "S"}), n |-> R(1..3), depth |-> R({1, 50, 300, 600}), how |-> R({"ppoints", "ppoint", "distance"}), old |-> Chance(50), model |-> IF Chance(90) THEN "iasp91" ELSE "missing"]
Delays(i) == [op |-> "delays", phase |-> Phase(i), slow |-> R({50, 64, 80}), ref |-> R({64, 50, 80})]
Meta(i) == [op |-> "meta", e |-> [lat |-> R((-3000)..3000), lon |-> R(57000..63000), depth |-> R({0, 10000, 300000}), mag |-> R(40..90), t |-> 1000 * R(0..900000), pref |-> Chance(40), prefmag |-> Chance(30)],
            lack |-> IF Chance(45) THEN "" ELSE R({"origin", "lat", "lon", "depth", "time", "mag"}), slack |-> IF Chance(75) THEN "" ELSE R({"latitude", "longitude", "elevation"}), form |-> R({"stats", "stream", "none"}), n |-> R(1..3), old |-> R({"none", "some", "all"}),
            phase |-> R({"P", "P", "P", "S", "S", "PP", "PcP", "PS", "", "p", "ScS", "SP"}), range |-> R({"default", "default", "none", "wide"}), given |-> R({"both", "both", "both", "event", "station", "nothing"}), pp |-> Chance(30)]
Init == c = <<>> /\ step = 0
Pick == step = 0 /\ step' = 1 /\ c' = LET k == R(1..14) IN
  TLCEval(IF k <= 4 THEN Deconv(k) ELSE IF k <= 6 THEN RfReq(k) ELSE IF k = 7 THEN Harm(k) ELSE IF k <= 9 THEN Move(k) ELSE IF k = 10 THEN PP(k) ELSE IF k = 11 THEN Delays(k) ELSE Meta(k))
Out == step = 1 /\ step' = 2 /\ UNCHANGED c /\ Emit(c)
Next == Pick \/ Out
Spec == Init /\ [][Next]_vars
=============================================================================
