----------------------------- MODULE DeconvTrace -----------------------------
EXTENDS Kit
VARIABLE l
D == INSTANCE Deconv WITH MaxLen <- 0, MaxNum <- 0, MaxShift <- 0, lr <- 0, ls <- 0, num <- 0, shift <- 0, pa <- 0, pb <- 0, stage <- 0
H == INSTANCE Harmonics WITH CoefVals <- {}, coef <- 0, azim <- 0, left <- 0, acc <- 0
MaxAbs(s) == FoldL(LAMBDA a, x : Max2(a, Abs(x)), 0, s)
MaxOf(s) == FoldL(LAMBDA a, x : Max2(a, x), s[1], s)
-----------------------------------------------------------------------------
(* time: x in thousandths, spiking in tenths; row i (1..num) of the equation times 10 S0                                *)
Row(A, x, s10, i) == 10 * SumSeq([j \in 1..Len(x) |-> A[Abs(i - j) + 1] * x[j]]) + A[1] * s10 * x[i]
Solves(e, r, x) ==
  LET n == Len(x)
      A == TLCEval([k \in 1..n |-> D!Auto(e.src, k - 1)])
      tol == 10 * SumSeq([k \in 1..n |-> Abs(A[k])]) + A[1] * e.spiking
  IN \E m0 \in D!ZeroLag(e.shift, e.num, Len(e.src), Len(r)) :
       \A i \in 1..n : Near(Row(A, x, e.spiking, i), 10000 * A[1] * D!Corr(r, e.src, i - 1 - m0), tol)
\* y = x / m, m the maximum of the reference; x, m in the same unit, y in 10^-5
Divided(e, y, x) ==
  LET m == IF e.op = "time" THEN MaxAbs(e.ref) ELSE MaxOf(e.ref)
  IN Len(y) = Len(x) /\ \A k \in 1..Len(x) : Abs(x[k]) > 1000000 \/ Abs(m) > 1000000 \/ Abs(m) < 50 \/
       /\ Abs(y[k] \div 100) <= 2000000000 \div Abs(m)
       /\ Near((y[k] \div 100) * m, x[k] * 1000, 2 * Abs(m) + 2000 + Abs(y[k] \div 100) + Abs(x[k]))
Time(e) ==
     Bad(\A i \in 1..Len(e.rsp) : Len(e.raw[i]) = e.num /\ Solves(e, e.rsp[i], e.raw[i]), "solution-of-the-normal-equations")
-----------------------------------------------------------------------------
(* waterlevel: N samples, e.raw in 10^-4; complex numbers as pairs                                                      *)
W(N, m) == <<H!Cos((24 \div N) * m), 0 - H!Sin((24 \div N) * m)>>               \* exp(-2 pi i m / N) * 10^6
\* spectrum of integers, times 1000
Spec1000(a, N, k) == <<SumSeq([n \in 1..Min2(Len(a), N) |-> a[n] * (W(N, k * (n - 1))[1] \div 100)]) \div 10,
                       SumSeq([n \in 1..Min2(Len(a), N) |-> a[n] * (W(N, k * (n - 1))[2] \div 100)]) \div 10>>
\* spectrum of a result in 10^-4, times 1000; u keeps the products within 32 bits
SpecX(x, N, k, u) == <<(SumSeq([n \in 1..N |-> (x[n] \div u) * (W(N, k * (n - 1))[1] \div 100)]) \div 100000) * u,
                       (SumSeq([n \in 1..N |-> (x[n] \div u) * (W(N, k * (n - 1))[2] \div 100)]) \div 100000) * u>>
Freq(N, k) == IF 2 * k > N THEN N - k ELSE k
\* exp(-k^2 / (2 c^2)) in thousandths, c = 1, 2, 3
Gauss == <<<<1000, 607, 135, 11, 0, 0, 0>>, <<1000, 882, 607, 325, 135, 44, 11>>, <<1000, 946, 801, 607, 411, 249, 135>>>>
G(e, k) == IF e.gauss = 0 THEN 1000 ELSE Gauss[e.gauss][Freq(e.N, k) + 1]
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Quotient(e, r, x) ==
  LET N == e.N
      S == TLCEval([k \in 0..N - 1 |-> Spec1000(e.src, N, k)])
      Rr == TLCEval([k \in 0..N - 1 |-> Spec1000(r, N, k)])
      P == TLCEval([k \in 0..N - 1 |-> (S[k][1] * S[k][1]) \div 100 + (S[k][2] * S[k][2]) \div 100])      \* |S|^2 times 10^4
      top == FoldL(LAMBDA a, k : Max2(a, P[k - 1]), 0, [k \in 1..N |-> k])
      Wt == TLCEval([k \in 0..N - 1 |-> Max2(P[k], ((top \div 10) * e.wl) \div 10)])
      sx == SumSeq([n \in 1..N |-> Abs(x[n])])
      u == 1 + sx \div 200000
      lhs(k) == LET X == SpecX(x, N, k, u)
                    M(v) == IF Wt[k] > 100000 THEN (v * (Wt[k] \div 100)) \div 100 ELSE (v * Wt[k]) \div 10000
                IN <<M(X[1]), M(X[2])>>                                                                           \* times 1000
      rs(k) == LET q == CMul(Rr[k], <<S[k][1], 0 - S[k][2]>>) IN <<q[1] \div 1000, q[2] \div 1000>>                  \* times 1000
      ph(k) == W(N, k * e.tshift)
      rhs(k) == LET q == CMul(rs(k), <<ph(k)[1] \div 1000, ph(k)[2] \div 1000>>)
                IN <<((q[1] \div 1000) * G(e, k)) \div 1000, ((q[2] \div 1000) * G(e, k)) \div 1000>>                 \* times 1000
      tolx == 3 + sx \div 80000                                                                                    \* of X, times 1000
      tol(k) == 150 + (Abs(rs(k)[1]) + Abs(rs(k)[2])) \div 200 + ((tolx * (Wt[k] \div 100 + 1)) \div 100)
  IN \A k \in 0..N - 1 : LET a == lhs(k) b == rhs(k) t == tol(k) IN Near(a[1], b[1], t) /\ Near(a[2], b[2], t)
Water(e) == Bad(\A i \in 1..Len(e.rsp) : Len(e.raw[i]) = e.N /\ Quotient(e, e.rsp[i], e.raw[i]), "spectral-quotient")
            \cup Bad(e.real, "real-valued-result")
            \cup Bad(e.cut, "requested-length")
Clauses(e) == IF e.exc # "" THEN {"deconvolution-raised"} ELSE
  (IF e.op = "time" THEN Time(e) ELSE Water(e))
  \cup Bad(e.hasnorm => Len(e.normed) = Len(e.raw) /\ \A i \in 1..Len(e.normed) : Divided(e, e.normed[i], e.raw[i]), "normalised-by-the-reference")
  \cup Bad(e.single, "single-array-and-list-differ")
  \cup Bad(e.kept, "input-changed")
Init == l = 1
Next == l <= Len(Tr) /\ l' = l + 1 /\ Report(l, Clauses(Tr[l]))
Spec == Init /\ [][Next]_l
=============================================================================
