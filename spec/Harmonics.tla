----------------------------- MODULE Harmonics -----------------------------
(* Azimuthal decomposition: constant, cos, sin, cos2, sin2 relative to a    *)
(* reference azimuth.  Azimuths are counted in steps of 15 degrees.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CT == <<1000000, 965926, 866025, 707107, 500000, 258819, 0, -258819, -500000, -707107, -866025, -965926,
        -1000000, -965926, -866025, -707107, -500000, -258819, 0, 258819, 500000, 707107, 866025, 965926>>
Cos(u) == CT[(u % 24) + 1]
Sin(u) == Cos(u - 6)
M == 1000000
(* sample j (times 10^6) of a radial/Q (or single) and of a transverse component at azimuth u relative to the        *)
(* reference; a = modelled, b = unmodelled part, s = multipliers (tenths) of the constants                            *)
One(a, u, j) == a[1][j] * M + a[2][j] * Cos(u) + a[3][j] * Sin(u) + a[4][j] * Cos(2 * u) + a[5][j] * Sin(2 * u)
TwoR(a, b, s, u, j) == a[1][j] * s[1] * (M \div 10) + (a[2][j] + b[2][j]) * Cos(u) + (a[3][j] + b[3][j]) * Sin(u)
                       + (a[4][j] + b[4][j]) * Cos(2 * u) + (a[5][j] + b[5][j]) * Sin(2 * u)
TwoT(a, b, s, u, j) == b[1][j] * s[2] * (M \div 10) + (b[2][j] - a[2][j]) * Sin(u) + (a[3][j] - b[3][j]) * Cos(u)
                       + (b[4][j] - a[4][j]) * Sin(2 * u) + (a[5][j] - b[5][j]) * Cos(2 * u)
Terms == <<"constant", "cos", "sin", "cos2", "sin2">>

(* design: the eight azimuths at 45 degrees, numbers p + q*sqrt(2) as <<p, q>> times 1/2: the projections on the     *)
(* terms, summed trace by trace in any order, give back the coefficients, and do not depend on the order              *)
CONSTANTS CoefVals
VARIABLES coef, azim, left, acc
vars == <<coef, azim, left, acc>>
Cos8 == <<<<2, 0>>, <<0, 1>>, <<0, 0>>, <<0, -1>>, <<-2, 0>>, <<0, -1>>, <<0, 0>>, <<0, 1>>>>
C8(k) == Cos8[(k % 8) + 1]
S8(k) == C8(k - 2)
Add(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Scale(n, x) == <<n * x[1], n * x[2]>>
Mul(x, y) == <<x[1] * y[1] + 2 * x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>        \* times 1/4
Basis(t, k) == CASE t = 1 -> <<2, 0>> [] t = 2 -> C8(k) [] t = 3 -> S8(k) [] t = 4 -> C8(2 * k) [] t = 5 -> S8(2 * k)
Datum(k) == LET f == [t \in 1..5 |-> Scale(coef[t], Basis(t, k - azim))]
            IN Add(f[1], Add(f[2], Add(f[3], Add(f[4], f[5]))))
Init == /\ coef \in [1..5 -> CoefVals] /\ azim \in {0, 3} /\ left = 0..7 /\ acc = [t \in 1..5 |-> <<0, 0>>]
Take == \E k \in left : /\ left' = left \ {k}
                        /\ acc' = [t \in 1..5 |-> Add(acc[t], Mul(Datum(k), Basis(t, k - azim)))]
                        /\ UNCHANGED <<coef, azim>>
Next == Take
Spec == Init /\ [][Next]_vars
Recovered == left = {} => \A t \in 1..5 : acc[t] = <<coef[t] * 4 * (IF t = 1 THEN 8 ELSE 4), 0>>
=============================================================================
