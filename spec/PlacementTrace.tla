--------------------------- MODULE PlacementTrace ---------------------------
(* One deconvolution per line. p: the deconvolved wavelet (from a record that has nothing but the source), position on; *)
(* every component c has copies <<delay, amplitude in tenths>>; y[c] the result, all in 10^-4.                            *)
EXTENDS Kit
VARIABLE l
MaxAbs(s) == FoldL(LAMBDA a, x : Max2(a, Abs(x)), 0, s)
MaxOf(s) == FoldL(LAMBDA a, x : Max2(a, x), s[1], s)
At(s, i) == IF 1 <= i /\ i <= Len(s) THEN s[i] ELSE 0
Within(s, i) == 1 <= i /\ i <= Len(s)
\* sum of the shifted pulses, in 10^-4 of the pulse
Sum(p, cs, k) == SumSeq([i \in 1..Len(cs) |-> cs[i][2] * At(p, k - cs[i][1])]) \div 10
Whole(p, cs) == TLCEval([k \in 1..Len(p) |-> Sum(p, cs, k)])
Tol == [time |-> 150, waterlevel |-> 100, freq |-> 100, iterative |-> 200, multitaper |-> 1500, func |-> 100]
Sharp(e) == /\ \A k \in 1..Len(e.p) : Abs(k - e.on) > 1 => Abs(e.p[k]) <= e.side
            /\ Near(e.p[e.on], 10000, 20)
            /\ e.p[e.on] >= MaxOf(e.p)
Factor(e) == IF e.norm < 0 THEN 10000 ELSE LET s == Whole(e.p, e.copies[e.norm + 1])
                                           IN IF e.method \in {"waterlevel", "freq", "func"} THEN MaxOf(s) ELSE MaxAbs(s)
Placed(e, c, f) ==
  LET y == e.y[c] cs == e.copies[c] IN
  /\ Len(y) = e.n
  /\ \A k \in 1..Len(y) : (\A i \in 1..Len(cs) : Within(e.p, k - cs[i][1])) =>
        /\ Abs(y[k]) <= 2000000000 \div Max2(Abs(f), 100)
        /\ Near((y[k] * f) \div 10000, Sum(e.p, cs, k), e.tol)
\* nothing is larger than a few times the pulse
Bounded(s) == \A i \in 1..Len(s) : Abs(s[i]) <= 300000
Clauses(e) == IF e.exc # "" THEN {"deconvolution-raised"} ELSE
  IF ~(Bounded(e.p) /\ \A c \in 1..Len(e.y) : Bounded(e.y[c])) THEN {"pulses-out-of-proportion"} ELSE
  Bad(e.ids = e.wantids, "response-traces-and-order")
  \cup Bad(Sharp(e), "source-deconvolved-to-one-at-the-onset")
  \cup Bad(\A i \in 1..Len(e.onset) : e.onset[i] = 4 * (e.on - 1) /\ Near(e.onset[i], e.onset4, 2), "onset-at-the-nearest-sample")
  \cup (LET f == TLCEval(Factor(e))
        IN Bad(Len(e.y) = Len(e.copies) /\ \A c \in 1..Len(e.y) : Placed(e, c, f), "copies-at-their-delays-with-their-amplitudes"))
  \cup Bad(e.custom, "custom-function-called-as-documented")
  \cup Bad(e.inplace, "result-written-to-the-stream")
Init == l = 1
Next == l <= Len(Tr) /\ l' = l + 1 /\ Report(l, Clauses(Tr[l]))
Spec == Init /\ [][Next]_l
=============================================================================
