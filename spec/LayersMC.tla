------------------------------ MODULE LayersMC ------------------------------
(* The laws of the layered model, checked on a grid of small models.        *)
EXTENDS Layers
CONSTANTS Hp, Hs, Dz, Ps
VARIABLES P, ph, p, ref
vars == <<P, ph, p, ref>>
Phs == {[np |-> 1, ns |-> 1, first |-> "P"], [np |-> 3, ns |-> 1, first |-> "P"], [np |-> 1, ns |-> 1, first |-> "S"],
        [np |-> 2, ns |-> 2, first |-> "S"]}
Pc(z, dz, hp, hs) == [z |-> z, dz |-> dz, hp |-> hp, hs |-> hs, hpb |-> hp, hsb |-> hs]
Init == /\ \E a, b \in Hp : \E c, d \in Hs : \E u, v \in Dz :
             P = <<Pc(0, u, a, c), Pc(u, v, b, d)>>
        /\ ph \in Phs /\ p = 0 /\ ref = 0
Choose == /\ p = 0 /\ p' \in Ps /\ ref' \in Ps /\ UNCHANGED <<P, ph>>
Next == Choose
Spec == Init /\ [][Next]_vars
D(q) == [i \in 1..2 |-> Abs(Delays(P, q, ph)[i])]
Grows == p > 0 => D(p)[1] > 0 /\ D(p)[2] > D(p)[1]
Inverse == p > 0 => \A t \in {D(ref)[1] \div 3, D(ref)[1], (D(ref)[1] + D(ref)[2]) \div 2} :
             /\ Near(OldTime(D(ref), D(p), OldTime(D(p), D(ref), t)), t, 40)
             /\ (p = ref => Near(OldTime(D(p), D(ref), t), t, 20))
\* a layer split into equal halves has the same delays and piercing points
Split == p > 0 => LET h == P[1].dz \div 2
                      S == <<Pc(0, h, P[1].hp, P[1].hs), Pc(h, h, P[1].hp, P[1].hs), P[2]>>
                      q == [np |-> 0, ns |-> 1, first |-> "S"]
                  IN /\ Near(Delays(S, p, ph)[3], Delays(P, p, ph)[2], 3)
                     /\ \A z \in {0, h \div 2, h, P[1].dz, P[1].dz + 7} : Near(PDist(S, p, q, z), PDist(P, p, q, z), 3)
\* additivity over the legs, zero at zero depth
Legs == p > 0 => LET f(np, ns, z) == PDist(P, p, [np |-> np, ns |-> ns, first |-> "P"], z) IN
          /\ f(1, 0, 0) = 0
          /\ \A z \in {P[1].dz, P[1].dz + 50} : Near(f(2, 1, z), 2 * f(1, 0, z) + f(0, 1, z), 12)
          /\ f(0, 1, P[1].dz + 50) > f(0, 1, P[1].dz)
=============================================================================
