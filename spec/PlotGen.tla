------------------------------- MODULE PlotGen -------------------------------
(* Streams and options for the plots.  Times in ms, data are integers, positions in units of 10 m, coordinates in 1/1000 degree. *)
EXTENDS Kit
VARIABLES c, step
vars == <<c, step>>
Init == c = <<>> /\ step = 0
Pick == step = 0 /\ step' = 1 /\ c' = [kind |-> R({"rf", "rf", "rf", "profile", "harm", "map", "rf", "profile"}), seed |-> R(0..1000000), n |-> IF Chance(15) THEN 1 ELSE R(2..7), npts |-> R(12..30), delta |-> R({100, 100, 250, 1000}),
                                          before |-> R(2..8), jit |-> IF Chance(60) THEN 0 ELSE 1, file |-> Chance(25), two |-> R(0..3), unit |-> R({1, 1, 1000, 1000000})]
\* data: small integers, some zero traces, some of much larger amplitude
Data(n) == CASE Chance(8) -> [k \in 1..n |-> 0] [] Chance(15) -> [k \in 1..n |-> R((-999)..999)] [] OTHER -> [k \in 1..n |-> R((-120)..120)]
Npts(i) == IF c.two = 0 /\ Chance(40) THEN c.npts - R(1..3) ELSE c.npts
Off(i) == c.before * c.delta + (IF c.jit = 1 THEN R(0..(c.delta \div 8)) ELSE 0)
Code(i) == [net |-> "XX", sta |-> IF c.two = 1 /\ Chance(30) THEN "BB" ELSE "AA", loc |-> IF c.two = 1 /\ Chance(30) THEN "10" ELSE "", cha |-> IF c.two \in {1, 2} /\ Chance(30) THEN "BHQ" ELSE "BHL"]
Tr1(i) == LET np == TLCEval(Npts(i)) IN [id |-> TLCEval(Code(i)), off |-> TLCEval(Off(i)), onset |-> R(0..999), d |-> TLCEval(Data(np)), baz |-> R(0..3600), dist |-> R(300..900), slow |-> R(40..80), mag |-> R(50..80)]
Same(i) == [Tr1(i) EXCEPT !.id = [net |-> "XX", sta |-> "AA", loc |-> "", cha |-> "BHQ"]]
PickTraces == step = 1 /\ step' = 2 /\ c' = c @@ [tr |-> TLCEval([i \in 1..(IF c.kind = "harm" THEN 20 ELSE c.n) |-> IF c.two = 3 THEN Same(i) ELSE Tr1(i)])]
Colors == {"C1", "#00ff00", "magenta", "0.3"}
Info == {"back_azimuth", "distance", "slowness", "event_magnitude"}
\* positions of the profile boxes, box lengths, counts
PickBoxes == step = 2 /\ step' = 3 /\ c' = c @@ [box |-> TLCEval([i \in 1..c.n |-> [pos |-> 2000 * i + R((-500)..500), len |-> R({500, 1000, 1000, 1500}), num |-> R(1..30), late |-> IF c.jit = 1 THEN R(0..2) ELSE 0, cut |-> IF c.jit = 1 THEN R(0..3) ELSE 0]]), rev |-> Chance(20),
                 col |-> <<R({"C1", "#00ff00", ""}), R({"magenta", "0.3", ""})>>,
                 scale |-> R({10, 10, 5, 20, 30}), own |-> Chance(30), show |-> ~Chance(15), vlines |-> Chance(25),
                 info |-> TLCEval([k \in 1..Min2(c.n, R({0, 1, 2, 2})) |-> R(Info)]), infodef |-> Chance(40), trim |-> IF Chance(40) THEN <<-R(0..(c.before * c.delta)) - R({0, 0, 37}), R((4 * c.delta)..((c.npts - 3) * c.delta)) + R({0, 0, 41})>> ELSE <<>>,
                 dpi |-> R({40, 60}), width |-> R({5, 7, 9}), top |-> Chance(50), model |-> Chance(60), phase |-> R({"Ps", "Ppps", "Sp"}), nslow |-> R(45..75)]
\* harmonics: terms 0..4 of the modelled and the unmodelled part, a second decomposition
PickHarm == step = 3 /\ step' = 4 /\ c' = c @@ [parts |-> R({<<"mod">>, <<"mod", "unmod">>, <<"mod", "unmod">>}), second |-> R({0, 0, 1, 2}), shuffle |-> Chance(50)]
Pt(i) == [lat |-> R((-20000)..20000), lon |-> R((-40000)..40000)]
PickMap == step = 4 /\ step' = 5 /\ c' = c @@ [stations |-> TLCEval([i \in 1..R(1..Max2(c.n, 5)) |-> Pt(i + c.n)]), points |-> TLCEval([i \in 1..R(1..Max2(c.n, 8)) |-> Pt(i + c.n)]), what |-> R({"stations", "points", "boxes", "both", "all"}), invform |-> R({"inventory", "stream"}), label |-> Chance(60), center |-> [lat |-> R((-20000)..(20000 + c.n)), lon |-> R((-40000)..(40000 + c.n))], az |-> R(0..359)]
Out == step = 5 /\ step' = 100 /\ UNCHANGED c /\ Emit(c)
Next == Pick \/ PickTraces \/ PickBoxes \/ PickHarm \/ PickMap \/ Out
Spec == Init /\ [][Next]_vars
==============================================================================
