------------------------------ MODULE LawsTrace ------------------------------
(* x, y, z: results of the calls of a law in units of 10^-5 of the largest value of them all; X, Y, Z amplitude spectra in 10^-5.   *)
EXTENDS Kit
VARIABLE l
Mod(a, n) == a % n
\* exp(-k^2 / (2 c^2)) in 10^-5 for c = 1, 2, 3 bins
Gauss == <<<<100000, 60653, 13534, 1111, 34, 0, 0, 0, 0, 0, 0, 0, 0>>, <<100000, 88250, 60653, 32465, 13534, 4394, 1111, 219, 34, 4, 0, 0, 0>>,
           <<100000, 94596, 80074, 60653, 41111, 24935, 13534, 6573, 2857, 1111, 387, 120, 34>>>>
GaussAt(c, k) == IF k > 12 THEN 0 ELSE Gauss[c][k + 1]
Holds(e) ==
  LET n == Len(e.x) IN
  CASE e.law \in {"alone", "order", "trend"} -> NearSeq(e.x, e.y, 3)
    \* the prepared source reported: the same however the results are normalised, and what the source gives against itself
    [] e.law \in {"info", "source"} -> NearSeq(e.x, e.y, 3) /\ NearSeq(e.x, e.z, 3)
    \* z belongs to r1 + f r2
    [] e.law = "linear" -> Len(e.y) = n /\ Len(e.z) = n /\ \A i \in 1..n : Near(e.z[i], e.x[i] + e.f * e.y[i], 5 + 2 * Abs(e.f))
    \* y belongs to f r1
    [] e.law = "scaled" -> Len(e.y) = n /\ \A i \in 1..n : Near(e.y[i], e.f * e.x[i], 5 + 2 * Abs(e.f))
    \* k samples later
    [] e.law = "shift" -> Len(e.y) = n /\ \A i \in 1..n : Near(e.y[i], e.x[Mod(i - 1 - e.k, n) + 1], 5)
    \* a source of full length from itself: a spike of about one at the shift
    [] e.law = "itself" -> e.k + 1 \in 1..n /\ e.x[e.k + 1] \in 55000..160000 /\ \A i \in 1..n : i # e.k + 1 => Abs(e.x[i]) < 30000
         /\ e.y[e.k + 1] \in 25000..85000    \* noise as strong as the source: about a half
    \* noise elsewhere within its record: the same effect on the amplitudes, and an effect
    [] e.law = "move" -> Len(e.Y) = Len(e.X) /\ (\A i \in 1..Len(e.X) : Near(e.X[i], e.Y[i], 3)) /\ \E i \in 1..Len(e.X) : e.X[i] < e.Z[i] - 50
    \* less at every frequency
    [] e.law \in {"noise", "level"} -> Len(e.Y) = Len(e.X) /\ (\A i \in 1..Len(e.X) : e.Y[i] <= e.X[i] + 3) /\ (e.effect => \E i \in 1..Len(e.X) : e.Y[i] < e.X[i])
    [] e.law = "gauss" -> Len(e.Y) = Len(e.X) /\ \A k \in 1..Len(e.X) : Near(e.Y[k], ((e.X[k] \div 10) * (GaussAt(e.g, k - 1) \div 10)) \div 1000, 15 + e.X[k] \div 5000)
Clauses(e) == IF e.exc # "" THEN {"deconvolution-raised"} ELSE
     Bad(e.finite, "result-is-no-number")
  \cup (IF e.finite THEN Bad(Holds(e), "law-" \o e.law) ELSE {})
Init == l = 1
Next == l <= Len(Tr) /\ l' = l + 1 /\ Report(l, Clauses(Tr[l]))
Spec == Init /\ [][Next]_l
=============================================================================
