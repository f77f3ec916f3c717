------------------------------- MODULE Deconv -------------------------------
(* Deconvolution of arrays.                                                   *)
(*  time:        (A + spiking I) x = b,  A the autocorrelation of the source   *)
(*               normalised to 1, b the correlation of response and source     *)
(*               whose lag zero stands at sample                                *)
(*                     shift + (num - 1 + len(src) - len(rsp)) / 2              *)
(*               (middles of the windows are aligned)                           *)
(*  waterlevel:  X W = G P R conj(S),  W = max(|S|^2, level max |S|^2)          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
At(a, i) == IF 1 <= i /\ i <= Len(a) THEN a[i] ELSE 0
RECURSIVE Dot(_, _, _, _)
\* sum over j of r[j + lag] s[j]
Dot(r, s, lag, j) == IF j = 0 THEN 0 ELSE At(r, j + lag) * s[j] + Dot(r, s, lag, j - 1)
Corr(r, s, lag) == Dot(r, s, lag, Len(s))
Auto(s, lag) == Corr(s, s, lag)
FloorHalf(n) == n \div 2                       \* rounds towards minus infinity
CeilHalf(n) == -((-n) \div 2)
ZeroLag(shift, num, ls, lr) == {shift + FloorHalf(num - 1 + ls - lr), shift + CeilHalf(num - 1 + ls - lr)}

(* design: the correlation is computed with padding; where does lag zero land?                                          *)
CONSTANTS MaxLen, MaxNum, MaxShift
VARIABLES lr, ls, num, shift, pa, pb, stage
vars == <<lr, ls, num, shift, pa, pb, stage>>
Init == /\ lr \in 1..MaxLen /\ ls \in 1..MaxLen /\ num \in 1..MaxNum /\ shift \in (-MaxShift)..MaxShift
        /\ pa = 0 /\ pb = 0 /\ stage = 0
AbsV(x) == IF x < 0 THEN -x ELSE x
PadShift == /\ stage = 0 /\ stage' = 1 /\ pa' = (IF shift > 0 THEN 2 * shift ELSE 0) /\ UNCHANGED <<lr, ls, num, shift, pb>>
PadLength == /\ stage = 1 /\ stage' = 2
             /\ LET dif == lr + 2 * AbsV(shift) - ls + 1 - num
                IN IF dif > 0 THEN pb' = (dif + 1) \div 2 /\ UNCHANGED pa
                   ELSE pa' = pa + (1 - dif) \div 2 /\ UNCHANGED pb
             /\ UNCHANGED <<lr, ls, num, shift>>
Next == PadShift \/ PadLength
Spec == Init /\ [][Next]_vars
Aligned == stage = 2 => (pa - pb) \in ZeroLag(shift, num, ls, lr)
=============================================================================
