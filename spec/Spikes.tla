------------------------------- MODULE Spikes -------------------------------
(* Iterative deconvolution: one spike after the other is placed where the correlation of what is left of the response with    *)
(* the source is largest in absolute value, with the amplitude correlation / power of the source.                             *)
(* Exact: left is the rest of the response times power^k, spikes are the amplitudes times power^k.                             *)
(* Fault: "none"; "signed" (largest correlation, not largest absolute value); "power" (amplitude is off by a factor of two);    *)
(* "stop" (stops before the first spike if the misfit is below the threshold of the changes).                                  *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Sources, Length, Vals, MaxSpikes, Fault
VARIABLES src, rsp, left, den, k, misfits, stopped
vars == <<src, rsp, left, den, k, misfits, stopped>>
N == Length
At(a, i) == IF 1 <= i /\ i <= Len(a) THEN a[i] ELSE 0
RECURSIVE Dot(_, _, _, _)
Dot(r, s, lag, j) == IF j = 0 THEN 0 ELSE At(r, j + lag) * s[j] + Dot(r, s, lag, j - 1)
Corr(r, lag) == Dot(r, src, lag, Len(src))
Power == Dot(src, src, 0, Len(src))
Lags == (1 - Len(src))..(N - 1)
Abs(x) == IF x < 0 THEN -x ELSE x
Size(x) == IF Fault = "signed" THEN x ELSE Abs(x)
Norm2(a) == Dot(a, a, 0, Len(a))
Init == /\ src \in Sources /\ rsp \in [1..N -> Vals] /\ \E i \in 1..N : rsp[i] # 0
        /\ left = [i \in 1..N + 2 |-> At(rsp, i)] /\ den = 1 /\ k = 0 /\ misfits = <<>> /\ stopped = FALSE
Best == {i \in Lags : \A j \in Lags : Size(Corr(left, i)) >= Size(Corr(left, j))}
\* left is as long as the copies of the source need (lags before the first sample are cut off there)
Place == /\ ~stopped /\ k < MaxSpikes
         /\ \E i \in {b \in Best : b >= 0 /\ b <= N + 2 - Len(src)} :
              LET c == Corr(left, i) * (IF Fault = "power" THEN 2 ELSE 1)
                  new == [j \in 1..N + 2 |-> left[j] * Power - c * At(src, j - i)] IN
              /\ left' = new /\ den' = den * Power /\ k' = k + 1
              \* misfit before and after over the common denominator, and the square of the correlation
              /\ misfits' = Append(misfits, <<Norm2(left) * Power * Power, Norm2(new), Corr(left, i)>>)
         /\ UNCHANGED <<src, rsp, stopped>>
Stop == /\ ~stopped /\ (k = MaxSpikes \/ (k > 0 /\ misfits[k][1] = misfits[k][2]) \/ (Fault = "stop" /\ Norm2(left) <= 1))
        /\ stopped' = TRUE /\ UNCHANGED <<src, rsp, left, den, k, misfits>>
Next == Place \/ Stop
Spec == Init /\ [][Next]_vars
\* every spike lowers the misfit by correlation^2 / power
Lowers == \A i \in 1..k : misfits[i][2] = misfits[i][1] - misfits[i][3] * misfits[i][3] * Power
Copy(a, i) == [j \in 1..N |-> a * At(src, j - i)]
\* a response that is one copy of the source, positive or negative, is explained by one spike
OneCopy == (k >= 1 /\ \E i \in 0..N - Len(src) : \E a \in {-2, -1, 1, 2} : rsp = Copy(a, i)) => \A j \in 1..Len(left) : left[j] = 0
Begins == stopped => k >= 1
=============================================================================
