---------------------------- MODULE LayersTrace ----------------------------
EXTENDS Layers
VARIABLE l
Plines(e) == IF e.kind = "iasp" THEN Pieces("G", Iasp91) ELSE Pieces(e.kind, e.lines)
AbsSeq(s) == TLCEval([i \in 1..Len(s) |-> Abs(s[i])])
Base == 100000000        \* the samples are Base + sign * time
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* ---------------------------------------------------------------- moveout of one trace
Moved(e, P, t) ==
  LET ph == e.ph
      left == ph.first = "S" /\ ph.np + ph.ns > 3
      N == Min2(NReal(P, t.p, ph), NReal(P, e.ref, ph))
      PB == Bottomed(P)
      A == TLCEval(SubSeq(AbsSeq(Delays(P, t.p, ph)), 1, N))
      B == TLCEval(SubSeq(AbsSeq(Delays(P, e.ref, ph)), 1, N))
      A2 == TLCEval(SubSeq(AbsSeq(Delays(PB, t.p, ph)), 1, N))
      B2 == TLCEval(SubSeq(AbsSeq(Delays(PB, e.ref, ph)), 1, N))
      exact == e.kind = "H"
      whole == e.kind # "iasp"
      Bsafe == IF N < Len(P) THEN Min2(B[N-1], B2[N-1]) ELSE Min2(B[N], B2[N])
      Bmax == Max2(B[N], B2[N])
      dl == t.delta
      lo == 4 * dl
      time(k) == t.t0 + (k - 1) * dl
      d(k) == IF left THEN - time(k) ELSE time(k)
      dend == IF left THEN - time(1) ELSE time(Len(t.data))
      in(k) == Base + t.sign * time(k)
      oldd(k) == t.sign * (IF left THEN Base - t.data[k] ELSE t.data[k] - Base)
      Near1(k) == LET tt == d(k)
                      o1 == OldTime(A, B, tt)
                      o2 == IF exact THEN o1 ELSE OldTime(A2, B2, Min2(tt, B2[N]))
                      j1 == Seg(B, Max2(1, tt - 4 * dl))
                      j2 == Seg(B, Min2(B[N], tt + 4 * dl))
                      sl == {Slope(A, B, j) : j \in {i \in j1..j2 : P[i].dz > 0}}
                      tol == 200 + (IF tt > Bsafe - 3 * dl THEN dl \div 20 ELSE 0)     \* ringing of the interpolation at the last sample
                             + Abs(o1 - o2) + (2 * dl * (MaxOf(sl) - MinOf(sl))) \div 1000
                  IN o1 > dend - 2 * dl \/ Near(oldd(k), o1, tol)
      K == 1..Len(t.data)
  IN Bad(\A k \in K : d(k) <= - 2 * dl => t.data[k] = in(k), "other-side-of-the-onset-changed")
     \cup Bad(\A k \in K : d(k) > lo /\ d(k) < Bsafe - dl => Near1(k), "energy-at-the-wrong-delay")
     \cup Bad(whole => \A k \in K : d(k) > Bmax + dl => t.data[k] = 0, "energy-beyond-the-model")
     \cup Bad(t.p = e.ref => \A k \in K : d(k) < Bsafe - dl => Near(t.data[k], in(k), 1), "reference-slowness-changes-data")
     \cup Bad(t.kept, "number-or-times-of-samples")
     \cup Bad(t.again <= 1, "repeating-changes-data")
     \cup Bad(e.via = "file" => t.head.moveout = e.name /\ Near(t.head.before, t.p * 100, 1) /\ Near(t.head.slow, e.ref * 100, 1),
              "headers")
MoveClauses(e) == LET P == Plines(e) IN UNION {Moved(e, P, t) : t \in Range(e.traces)}
\* ---------------------------------------------------------------- delay times
DelayClauses(e) ==
  LET P == Plines(e)
      D1 == Delays(P, e.p, e.ph)
      D2 == Delays(Bottomed(P), e.p, e.ph)
      n == Min2(Len(D1), Len(D2))
      tol(i) == 20 + (IF e.kind = "H" THEN 2 * i ELSE 700 + 15 * i)
  IN Bad(IF e.kind = "iasp" THEN Len(e.t) >= Len(P) ELSE Len(e.t) = Len(P), "number-of-delay-times")
     \cup Bad(\A i \in 1..Min2(n, Len(e.t)) : /\ e.t[i] >= Min2(D1[i], D2[i]) - tol(i)
                                              /\ e.t[i] <= Max2(D1[i], D2[i]) + tol(i), "delay-times")
\* ---------------------------------------------------------------- piercing points
Between(x, a, b, tol) == x >= Min2(a, b) - tol /\ x <= Max2(a, b) + tol
PTrace(e, P, t) ==
  LET PB == Bottomed(P)
      i == PieceOf(P, e.depth)
      x1 == PDist(P, t.p, e.ph, e.depth)
      x2 == PDist(PB, t.p, e.ph, e.depth)
      tol(x) == 12 + i * (IF e.kind = "H" THEN 2 ELSE 4) + x \div 10000 + x \div (IF e.kind = "H" THEN 100000 ELSE 5000)
      true == Between(t.x, x1, x2, tol(x1))
      low == i < Len(P) /\ P[i+1].z > e.depth
             /\ LET y == PDistLow(P, t.p, e.ph, e.depth) IN Between(t.x, y, y, tol(y))
  IN (IF true THEN {} ELSE IF low THEN {"KNOWN-one-layer-too-deep"} ELSE {"distance-of-the-piercing-point"})
     \cup Bad(Near(t.s, t.x, 3 + t.x \div 100000), "coordinates-at-the-distance")
     \cup Bad(t.s > 2000 => LET a == Abs(t.az - t.baz * 1000) % 360000 IN Min2(a, 360000 - a) <= 30, "direction-of-the-back-azimuth")
     \cup Bad(t.depth = e.depth /\ t.stored /\ t.rest, "headers")
PClauses(e) ==
  LET P == Plines(e) IN
  IF e.kind # "iasp" /\ e.depth > P[Len(P)].z + P[Len(P)].dz
  THEN Bad(e.exc # "", "depth-below-the-model-accepted")
  ELSE IF e.depth >= P[Len(P)].z THEN {}      \* within the last piece: either
  ELSE Bad(e.exc = "", "piercing-point-raised")
       \cup (IF e.exc # "" THEN {} ELSE UNION {PTrace(e, P, t) : t \in Range(e.traces)})
Clauses(e) == CASE e.op = "move" -> MoveClauses(e) [] e.op = "delay" -> DelayClauses(e) [] e.op = "pp" -> PClauses(e)
Init == l = 1
Next == l <= Len(Tr) /\ l' = l + 1 /\ Report(l, Clauses(Tr[l]))
Spec == Init /\ [][Next]_l
=============================================================================
