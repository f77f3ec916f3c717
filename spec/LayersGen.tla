----------------------------- MODULE LayersGen -----------------------------
EXTENDS Layers
VARIABLES m, c, step
vars == <<m, c, step>>
Line(z, p, s, n) == [z |-> z, p |-> p, s |-> s, n |-> n]
Layer(d) == [dz |-> R({50, 100, 200, 330, 500, 1000}), n |-> R({0, 0, 1, 2, 3, 5}), hp |-> R(11000..17500), ratio |-> R(160..185),
             vp |-> R(5000..10000)]
RECURSIVE HLines(_, _)
HLines(ls, z) == IF ls = <<>> THEN <<>>
                 ELSE LET a == Head(ls)
                          hs == (a.hp * a.ratio) \div 100
                          z2 == z + a.dz * (a.n + 1)
                      IN <<Line(z, a.hp, hs, 0), Line(z2, a.hp, hs, a.n)>> \o HLines(Tail(ls), z2)
RECURSIVE GLines(_, _)
GLines(ls, z) == IF ls = <<>> THEN <<>>
                 ELSE LET a == Head(ls) IN
                      <<Line(z, a.vp, (a.vp * 100) \div a.ratio, IF z = 0 THEN 0 ELSE a.n)>>
                      \o GLines(Tail(ls), IF Len(ls) = 1 THEN z ELSE z + ls[2].dz * (ls[2].n + 1))
Phase(name) == LET nP(s) == Len(SelectSeq(s, LAMBDA ch : ch = "P"))
                   nS(s) == Len(SelectSeq(s, LAMBDA ch : ch = "S"))
                   mk(s) == [np |-> nP(s), ns |-> nS(s), first |-> s[1]]
               IN mk(name)
Moves == [Ps |-> <<"P", "S">>, PPPS |-> <<"P", "P", "P", "S">>, Ppps |-> <<"P", "P", "P", "S">>, Ppss |-> <<"P", "P", "S", "S">>,
          Psss |-> <<"P", "S", "S", "S">>, Pppp |-> <<"P", "P", "P", "P">>,
          Sp |-> <<"S", "P">>, sp |-> <<"S", "P">>, Sspp |-> <<"S", "S", "P", "P">>, Sssp |-> <<"S", "S", "S", "P">>, Ssss |-> <<"S", "S", "S", "S">>,
          Sppsss |-> <<"S", "P", "P", "S", "S", "S">>, Sssspp |-> <<"S", "S", "S", "S", "P", "P">>, Pppsss |-> <<"P", "P", "P", "S", "S", "S">>,
          PPPPss |-> <<"P", "P", "P", "P", "S", "S">>,
          ps |-> <<"P", "S">>, ppps |-> <<"P", "P", "P", "S">>, sspp |-> <<"S", "S", "P", "P">>, sssp |-> <<"S", "S", "S", "P">>, SSPP |-> <<"S", "S", "P", "P">>]
Pps == [P |-> <<"P">>, S |-> <<"S">>, s |-> <<"S">>, PPP |-> <<"P", "P", "P">>, PPS |-> <<"P", "P", "S">>, pss |-> <<"P", "S", "S">>,
        SSS |-> <<"S", "S", "S">>, PPPPS |-> <<"P", "P", "P", "P", "S">>]
Usedh(P, ph) == (IF UsesP(ph) THEN {P[i].hp : i \in 1..Len(P)} \cup {P[i].hpb : i \in 1..Len(P)} ELSE {}) \cup
                (IF UsesS(ph) THEN {P[i].hs : i \in 1..Len(P)} \cup {P[i].hsb : i \in 1..Len(P)} ELSE {})
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Slow(h) == R({0, (h * R(5..85)) \div 100, (h * R(5..85)) \div 100, (h * R(20..60)) \div 100, (h * R(20..60)) \div 100})
Init == m = <<>> /\ c = <<>> /\ step = 0
PickModel == /\ step = 0 /\ step' = 1 /\ UNCHANGED c
             /\ m' = LET k == IF Chance(8) THEN "iasp" ELSE R({"H", "H", "G"})
                         ls == [i \in 1..R(1..6) |-> Layer(i)]
                         L == IF k = "H" THEN (LET q == HLines(ls, 0) IN IF Chance(70) THEN <<q[1]>> \o q ELSE q)
                              ELSE IF k = "G" THEN GLines(ls \o <<Layer(0)>>, 0) ELSE <<>>
                     IN [kind |-> k, lines |-> L, via |-> R({"arrays", "lists", "file"})]
P0 == IF m.kind = "iasp" THEN Pieces("G", Iasp91) ELSE Pieces(m.kind, m.lines)
\* slowness, reference, phases
PickCase == /\ step = 1 /\ step' = 2 /\ UNCHANGED m
            /\ c' = LET P == P0
                        name == R(DOMAIN Moves)
                        ph == Phase(Moves[name])
                        h == Min(Usedh(P, ph))
                        far == IF m.kind = "H" /\ Chance(20) THEN (IF UsesS(ph) THEN P[1].hs ELSE P[1].hp) ELSE h
                        ref == Slow(IF Chance(15) THEN far ELSE h)
                        pname == R(DOMAIN Pps)
                        pph == Phase(Pps[pname])
                        zmax == IF m.kind = "iasp" THEN 90000 ELSE P[Len(P)].z
                        ptr == [i \in 1..R(1..3) |-> [p |-> Slow(Min(Usedh(P, pph))), lat |-> R({R((-80)..80), R({-89, 89})}), lon |-> R({R((-180)..180), R({-180, 179, 180})}), baz |-> R(0..359)]]
                    IN [name |-> name, ph |-> ph, ref |-> ref, deflt |-> Chance(15),
                        traces |-> [i \in 1..R({1, 1, 2, 3}) |->
                           [p |-> IF Chance(15) THEN ref ELSE Slow(far), delta |-> R({100, 250, 500, 1000}), n |-> R({30, 60, 110}),
                            on |-> R({0, 3, 10, 15, 29}), onx |-> R({0, 0, 1, 2}), frac |-> R({0, 0, 0, 1, 3, 5, 9}), vals |-> R({"up", "down"})]],
                        pname |-> pname, pph |-> pph, pdeflt |-> Chance(15), ptraces |-> ptr, before |-> R({"", "", "phase", "headers", "depth", "model"}),
                        depth |-> R({0, R(0..zmax), R(0..zmax), P[R(1..Len(P))].z,
                                     IF m.kind = "iasp" THEN R(0..zmax) ELSE zmax + 100000 + R(1..5) * 10000})]
Far(P, p, ph) == \A h \in Usedh(P, ph) : Abs(h - p) >= 400
Fine == LET P == P0 IN
        /\ Far(P, c.ref, c.ph) /\ NReal(P, c.ref, c.ph) >= 1 /\ (NReal(P, c.ref, c.ph) = Len(P) \/ NReal(P, c.ref, c.ph) > 2)
        /\ \A t \in Range(c.traces) : Far(P, t.p, c.ph) /\ (NReal(P, t.p, c.ph) = Len(P) \/ NReal(P, t.p, c.ph) > 2)
Out == /\ step = 2 /\ step' = 3 /\ UNCHANGED <<m, c>>
       /\ IF Fine THEN Emit([m |-> m, c |-> c]) ELSE TRUE
Next == PickModel \/ PickCase \/ Out
Spec == Init /\ [][Next]_vars
=============================================================================
