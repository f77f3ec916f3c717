------------------------------ MODULE IterTrace ------------------------------
(* Records of deconv_iterative against the design of Spikes.tla. Arrays in hundredths; gr, gs: low-pass filtered response and source *)
(* with their first index (position 1 is sample -off); ra, rb: thousandths, results with k and k + 1 spikes, times the sampling interval.          *)
EXTENDS Kit
VARIABLE l
At(a, i) == IF 1 <= i /\ i <= Len(a) THEN a[i] ELSE 0
\* position of sample i
Gr(e, i) == At(e.gr, i + e.off + 1)
Span(e) == (0 - e.off)..(e.len + e.off)
Left(e, x) == TLCEval([i \in Span(e) |-> (10 * Gr(e, i) - SumSeq([j \in 1..Len(e.src) |-> e.src[j] * At(x, i - (j - 1) + e.T + 1)]) + 5) \div 10])
Lags(e) == (IF e.mute THEN 0 ELSE 0 - e.T)..(e.len - 1)
SumOver(e, F(_)) == SumSeq([i \in 1..e.len + 2 * e.off + 1 |-> F(i - e.off - 1)])
Corr(e, left, lag) == SumSeq([j \in 1..Len(e.gs) |-> LET i == (j - e.off - 1) + lag IN IF i \in Span(e) THEN left[i] * e.gs[j] ELSE 0])
Norm2(e, left) == SumOver(e, LAMBDA i : left[i] * left[i])
Power(e) == SumSeq([j \in 1..Len(e.gs) |-> e.gs[j] * e.gs[j]])
Top(S) == CHOOSE x \in S : \A y \in S : x >= y
\* decrease of the misfit by the best spike
Gain(e, left) == LET c == TLCEval(Top({Abs(Corr(e, left, lag)) : lag \in Lags(e)}))
                         u == 1 + c \div 30000
                     IN (((c \div u) * (c \div u)) \div Power(e)) * u * u
\* rms in 10^-6
IsMisfit(e, rms, m, m0, tol) == Near(((m0 \div 100) * (rms \div 100)) \div 100, m, tol)
Steps(e) ==
  LET zero == TLCEval([i \in Span(e) |-> Gr(e, i)])
      la == Left(e, e.ra)  lb == Left(e, e.rb)
      m0 == TLCEval(Norm2(e, zero)) ma == TLCEval(Norm2(e, la)) mb == TLCEval(Norm2(e, lb))
      first == TLCEval(Gain(e, zero))
      tol == m0 \div 50 + 250
  IN Bad(IsMisfit(e, e.rmsa[e.ita], ma, m0, m0 \div 100 + 100), "misfit-of-the-result")
     \cup Bad(IsMisfit(e, e.rmsb[e.itb], mb, m0, m0 \div 100 + 100), "misfit-of-the-result")
     \cup Bad(IsMisfit(e, e.rmsa[1], m0 - first, m0, m0 \div 60 + 250), "first-spike-is-the-best")
     \cup Bad(e.itb = e.k + 1 /\ e.ita = e.k => Near(mb, ma - Gain(e, la), tol), "next-spike-is-the-best")
     \cup Bad(\A i \in 1..e.k : Near(e.rmsa[i], e.rmsb[i], 1), "more-iterations-change-the-earlier-ones")
\* it iterations of at most max, the misfits of these
Rms(e, rms, it, max, minderr) ==
  LET d(i) == Abs((IF i = 1 THEN 1000000 ELSE rms[i - 1]) - rms[i]) IN
       Bad(Len(rms) = max /\ it \in 1..max /\ \A i \in it + 1..max : rms[i] = 0, "number-of-iterations")
  \cup Bad(it \in 1..max /\ Len(rms) = max => \A i \in 1..it : rms[i] >= 0 /\ rms[i] <= 1 + (IF i = 1 THEN 1000000 ELSE rms[i - 1]), "misfit-increases")
  \cup Bad(it \in 1..max /\ Len(rms) = max => /\ \A i \in 1..it - 1 : d(i) >= minderr - 2
                                              /\ it < max => d(it) <= minderr + 2, "stops-at-the-threshold")
MaxAbs(s) == FoldL(LAMBDA a, x : Max2(a, Abs(x)), 0, s)
Divided(e, y, x) ==
  LET m == MaxAbs(e.ref)
  IN Len(y) = Len(x) /\ \A k \in 1..Len(x) : Abs(x[k]) > 1000000 \/ Abs(m) > 1000000 \/ Abs(m) < 50 \/
       /\ Abs(y[k] \div 100) <= 2000000000 \div Abs(m)
       /\ Near((y[k] \div 100) * m, x[k] * 1000, 2 * Abs(m) + 2000 + Abs(y[k] \div 100) + Abs(x[k]))
Clauses(e) == IF e.exc # "" THEN {"deconvolution-raised"} ELSE
  Rms(e, e.rmsa, e.ita, e.k, 0) \cup Rms(e, e.rmsb, e.itb, e.k + 1, 0)
  \cup UNION {Rms(e, e.rms[i], e.its[i], e.itmax, e.minderr) : i \in 1..Len(e.rms)}
  \cup (IF Len(e.rmsa) = e.k /\ Len(e.rmsb) = e.k + 1 /\ e.ita \in 1..e.k /\ e.itb \in 1..e.k + 1 /\ Len(e.ra) = e.len /\ Len(e.rb) = e.len
        THEN IF e.visible THEN Steps(e) ELSE {} ELSE {"number-of-iterations"})
  \cup Bad(e.hasnorm => Len(e.normed) = Len(e.raw) /\ \A i \in 1..Len(e.normed) : Divided(e, e.normed[i], e.raw[i]), "normalised-by-the-reference")
  \cup Bad(e.single, "single-array-and-list-differ")
  \cup Bad(e.kept, "input-changed")
Init == l = 1
Next == l <= Len(Tr) /\ l' = l + 1 /\ Report(l, Clauses(Tr[l]))
Spec == Init /\ [][Next]_l
=============================================================================
