------------------------------ MODULE Layers ------------------------------
(* Plane waves through a layered model: delay times of conversions and multiples, moveout, piercing points. *)
(* Units: depth 10 m; wave slowness h = 1/v and ray parameter p 1e-5 s/km; time 10 us; distance 0.1 m.     *)
(* A model is a sequence of lines [z, p, s, n] as in a model file (n support points between the previous   *)
(* line and this one); p, s are h (kind "H") or velocities in m/s (kind "G").                               *)
EXTENDS Kit
RECURSIVE Newton(_, _)
Newton(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Newton(n, y)
Root(n, x) == Newton(n, x)     \* floor of the square root of n > 0, x >= that
\* vertical slowness sqrt(h^2 - p^2) in 1e-5/256 s/km; h > p
Q(h, p) == LET d == h * h - p * p
               r == Root(d, h)
           IN r * 256 + ((d - r * r) * 256) \div (2 * r + 1)
\* slowness of velocity x + (y - x) * i / k
H(kind, x, y, i, k) == IF kind = "H" THEN x + ((y - x) * i) \div k
                       ELSE (2000000000 \div (10 * x + (10 * (y - x) * i) \div k) + 1) \div 2
\* the pieces of a model: top, thickness, slowness at top and at bottom
Interval(kind, a, b) ==
  [j \in 1..(b.n + 1) |->
     LET k == b.n + 1
         at(x, y, i) == x + ((y - x) * i) \div k
     IN [z |-> at(a.z, b.z, j-1), dz |-> at(a.z, b.z, j) - at(a.z, b.z, j-1),
         hp |-> H(kind, a.p, b.p, j-1, k), hs |-> H(kind, a.s, b.s, j-1, k),
         hpb |-> H(kind, a.p, b.p, j, k), hsb |-> H(kind, a.s, b.s, j, k)]]
Pieces(kind, L) == TLCEval(FoldL(LAMBDA a, i : a \o Interval(kind, L[i], L[i+1]), <<>>, [i \in 1..(Len(L)-1) |-> i]))
Bottomed(P) == TLCEval([i \in 1..Len(P) |-> [P[i] EXCEPT !.hp = P[i].hpb, !.hs = P[i].hsb]])
\* a phase: numbers of P and S legs and type of the incoming wave
\* (the direct wave is taken off for the delay of a conversion)
Coef(ph) == [p |-> ph.np - (IF ph.first = "P" THEN 2 ELSE 0), s |-> ph.ns - (IF ph.first = "S" THEN 2 ELSE 0)]
UsesP(ph) == ph.np > 0
UsesS(ph) == ph.ns > 0
Real(pc, p, ph) == (UsesP(ph) => pc.hp > p /\ pc.hpb > p) /\ (UsesS(ph) => pc.hs > p /\ pc.hsb > p)
\* number of leading pieces in which all legs of the phase propagate
NReal(P, p, ph) == LET bad == {i \in 1..Len(P) : ~ Real(P[i], p, ph)}
                   IN IF bad = {} THEN Len(P) ELSE (CHOOSE i \in bad : \A j \in bad : i <= j) - 1
PieceDelay(pc, p, ph) ==
  LET c == Coef(ph)
      a == (IF c.p = 0 THEN 0 ELSE c.p * Q(pc.hp, p)) + (IF c.s = 0 THEN 0 ELSE c.s * Q(pc.hs, p))
  IN ((a \div 16) * pc.dz) \div 1600
\* delay of the phase converted at the bottom of piece i, i = 1..NReal
Delays(P, p, ph) == TLCEval(Cum(TLCEval([i \in 1..NReal(P, p, ph) |-> IF P[i].dz = 0 THEN 0 ELSE PieceDelay(P[i], p, ph)])))
\* tangent of the angle from the vertical in 2^-18
Tan18(h, p) == LET r == Q(h, p) \div 16
                   a == (p * 65536) \div r
                   b == (p * 65536) % r
               IN a * 64 + (b * 64) \div r
PieceDist(pc, dz, p, ph) ==
  LET t == (IF ph.np = 0 THEN 0 ELSE ph.np * Tan18(pc.hp, p)) + (IF ph.ns = 0 THEN 0 ELSE ph.ns * Tan18(pc.hs, p))
  IN ((((t \div 4) * dz) \div 256) * 100) \div 256
\* horizontal distance between the top of the model and the bottom of piece i
Dists(P, p, ph, n) == TLCEval(Cum(TLCEval([i \in 1..n |-> IF P[i].dz = 0 THEN 0 ELSE PieceDist(P[i], P[i].dz, p, ph)])))
\* last piece whose top is not below the depth
PieceOf(P, depth) == CHOOSE i \in 1..Len(P) : P[i].z <= depth /\ \A j \in (i+1)..Len(P) : P[j].z > depth
\* horizontal distance of the piercing point
PDist(P, p, ph, depth) ==
  LET i == PieceOf(P, depth)
      X == Dists(P, p, ph, i)
  IN (IF i = 1 THEN 0 ELSE X[i-1]) + PieceDist(P[i], depth - P[i].z, p, ph)
\* the deviation recorded as a known finding: everything one piece too deep
PDistLow(P, p, ph, depth) ==
  LET i == PieceOf(P, depth)
      X == Dists(P, p, ph, i + 1)
  IN X[i] + ((((X[i+1] - X[i]) \div 4) * (depth - P[i].z)) \div (P[i+1].z - P[i].z)) * 4

\* moveout: where the energy arriving at time t' of the corrected trace was before (t' within the model)
\* A, B: delays for the slowness of the trace and for the reference
Seg(B, t) == CHOOSE j \in 1..Len(B) : B[j] >= t /\ (j = 1 \/ B[j-1] < t)
MulDiv(a, b, c) == \* a*b/c for 0 <= a <= c, without overflow (c < 2^21)
  LET q1 == (a * 1000) \div c
      r1 == (a * 1000) % c
  IN (b * q1) \div 1000 + (b * ((r1 * 1000) \div c)) \div 1000000
OldTime(A, B, t) == LET j == Seg(B, t)
                        a0 == IF j = 1 THEN 0 ELSE A[j-1]
                        b0 == IF j = 1 THEN 0 ELSE B[j-1]
                    IN a0 + MulDiv(t - b0, A[j] - a0, B[j] - b0)
Slope(A, B, j) == LET a0 == IF j = 1 THEN 0 ELSE A[j-1]
                      b0 == IF j = 1 THEN 0 ELSE B[j-1]
                  IN IF B[j] = b0 THEN 0 ELSE ((A[j] - a0) * 1000) \div (B[j] - b0)

Iasp91 == LET l(z, p, s, n) == [z |-> z, p |-> p, s |-> s, n |-> n] IN <<
  l(0, 5800, 3360, 0), l(0, 5800, 3360, 0), l(1000, 5800, 3360, 4), l(2000, 5800, 3360, 4), l(2000, 6500, 3750, 0),
  l(3500, 6500, 3750, 5), l(3500, 8040, 4470, 0), l(7100, 8044, 4483, 10), l(12000, 8050, 4500, 10),
  l(17100, 8192, 4510, 10), l(21000, 8300, 4518, 10), l(21000, 8300, 4522, 0), l(27100, 8523, 4628, 10),
  l(37100, 8888, 4802, 20), l(41000, 9030, 4870, 10), l(41000, 9360, 5070, 0), l(47100, 9565, 5199, 10),
  l(57100, 9901, 5411, 15), l(66000, 10200, 5600, 13), l(66000, 10790, 5950, 0), l(67100, 10819, 5979, 3),
  l(76000, 11056, 6209, 10), l(76000, 11056, 6210, 0), l(77100, 11076, 6218, 3), l(82100, 11164, 6256, 5),
  l(87100, 11251, 6293, 5), l(92100, 11335, 6329, 5), l(97100, 11417, 6364, 5) >>
=============================================================================
