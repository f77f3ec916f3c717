------------------------------ MODULE Placement ------------------------------
(* Where a deconvolution puts the energy of a copy of the source that arrives d samples after the onset.                *)
(* Times in quarters of a sample; sample i stands at 4 i.                                                               *)
(*   Snap   the onset is moved to the nearest sample                                                                    *)
(*   Cut    the source window starts at the sample nearest to onset + w0 and has ls samples                             *)
(*   Time   correlation with aligned middles, lag zero at  shift + (ls - 1)/2,  shift = tshift - ls div 2                *)
(*   Freq   spectral quotient, shifted by tshift                                                                        *)
(* tshift is the time from the start of the source window to the onset; with Actual = FALSE it is taken from the         *)
(* requested window instead of the window that was cut (faulty: off by up to half a sample)                              *)
EXTENDS Integers, TLC
CONSTANTS N, Len0, Actual
VARIABLES on, w0, ls, d, start, idx, stage
vars == <<on, w0, ls, d, start, idx, stage>>
Nearest(q) == {s \in {4 * (q \div 4), 4 * (q \div 4) + 4} : 2 * (q - s) <= 4 /\ 2 * (s - q) <= 4}
Init == /\ on \in (4 * 2)..(4 * N) /\ w0 \in 0..16 /\ ls \in 1..Len0 /\ d \in -2..6
        /\ start = 0 /\ idx = 0 /\ stage = "raw"
Snap == /\ stage = "raw" /\ stage' = "snapped" /\ on' \in Nearest(on) /\ UNCHANGED <<w0, ls, d, start, idx>>
Cut == /\ stage = "snapped" /\ stage' = "cut" /\ start' \in Nearest(on - w0) /\ UNCHANGED <<on, w0, ls, d, idx>>
TShift == IF Actual THEN on - start ELSE w0
\* lag between the copy in the response and the source window, which begins at start
Lag == d * 4 + start
Time == /\ stage = "cut" /\ stage' = "done"
        /\ \E sh \in Nearest(TShift - 4 * (ls \div 2)) :
              idx' = Lag + sh + 4 * ((ls - 1 + (IF ls % 2 = 0 THEN 1 ELSE 0)) \div 2)
        /\ UNCHANGED <<on, w0, ls, d, start>>
Freq == /\ stage = "cut" /\ stage' = "done" /\ idx' = Lag + TShift /\ UNCHANGED <<on, w0, ls, d, start>>
Next == Snap \/ Cut \/ Time \/ Freq
Spec == Init /\ [][Next]_vars
AtDelay == stage = "done" => idx = on + 4 * d
=============================================================================
