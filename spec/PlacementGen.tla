---------------------------- MODULE PlacementGen ----------------------------
EXTENDS Kit
VARIABLES c, step
vars == <<c, step>>
Wavelets == {<<1>>, <<3, -1>>, <<4, 2, 1>>, <<2, 5, 2>>, <<1, 4, -3, 1>>, <<5, 4, 3, 2, 1>>, <<-3, 1>>}
Init == c = <<>> /\ step = 0
PickMethod == /\ step = 0 /\ step' = 1
              /\ c' = [m |-> R({"time", "time", "waterlevel", "freq", "iterative", "multitaper", "func"}), w |-> R(Wavelets),
                       comps |-> R({"LQT", "ZRT", "ZNE", "LQ", "ZR", "QTL", "TRZ", "TLQ"}), pol |-> R({"P", "P", "S"}), deflt |-> Chance(25),
                       srz |-> R({1, 2, 4, 5, 10})]
\* all numbers in samples; a default window has 10 s before, 30 s after the onset and tapers of 5 s
PickWin == /\ step = 1 /\ step' = 2
           /\ \E mt \in {c.m = "multitaper"} : \E sr \in {IF c.deflt /\ c.srz > 2 /\ c.m # "iterative" THEN R({1, 2}) ELSE IF mt /\ c.srz > 5 THEN 5 ELSE c.srz} :
              c' = [c EXCEPT !.m = c.m] @@
                 [sr |-> sr, tap |-> IF c.deflt THEN 5 * sr ELSE R(0..4), w0 |-> IF c.deflt THEN 10 * sr ELSE IF mt THEN R(22..40) ELSE R(7..25),
                  w1 |-> IF c.deflt THEN 30 * sr ELSE IF mt THEN R(26..44) ELSE R(12..40), w0f |-> R({0, 0, 0, 1, -1, 2}), w1f |-> R({0, 0, 1, -1, 2}),
                  onf |-> R({0, 0, 1, -1, 2, 1}), start |-> R({0, 0, 123, -7050}), dtype |-> R({"float", "float", "int", "float32"})]
PickOn == /\ step = 2 /\ step' = 3
          /\ \E mt \in {c.m = "multitaper"} :
             c' = c @@ [on |-> IF mt THEN 5 * c.sr + R(60..90) ELSE R(14..60), after |-> IF mt THEN R(160..220) ELSE R(50..100)]
\* copies: <<delay, amplitude in tenths>>
Copies(mt, on, after) == [i \in 1..R(1..3) |-> <<IF mt THEN R(8..60) ELSE R({R(0..after - 14), R(0..20), R(12 - on..0)}), R({-9, -5, -2, 1, 3, 5, 8})>>]
PickCopies == /\ step = 3 /\ step' = 4
              /\ c' = c @@ [copies |-> [k \in 1..3 |-> Copies(c.m = "multitaper", c.on, c.after)],
                            extra |-> Chance(50), extrad |-> R({c.w1 + 8, c.w1 + R(8..20), 0 - c.w0 - R(8..12)}), extraa |-> R({-8, -4, 3, 6})]
PickArgs == /\ step = 4 /\ step' = 5
            /\ c' = [c |-> c, spiking |-> R({1, 10, 100}), wl |-> R({1, 10, 50}), gauss |-> R({0, 1, 2, 3}), mute |-> Chance(20), respset |-> R({"all", "all", "others", "one", "src"}),
                     norm |-> R({"default", "default", "default", "none", "0", "1"}), solver |-> R({"default", "scipy"}), funcret |-> R({"same", "new", "renamed"}), pass |-> Chance(50),
                     noise |-> Chance(50), nfft |-> Chance(20), srcexpl |-> Chance(40), viarf |-> Chance(15)]
Out == step = 5 /\ step' = 6 /\ UNCHANGED c /\ Emit(c)
Next == PickMethod \/ PickWin \/ PickOn \/ PickCopies \/ PickArgs \/ Out
Spec == Init /\ [][Next]_vars
=============================================================================
