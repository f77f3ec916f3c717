------------------------------ MODULE PlotTrace ------------------------------
(* A line is a figure read back: per drawn line the trace and the samples it shows (rows[i].tr, k, n), its baseline, its   *)
(* largest amplitude (times 10^5) and the time of its first sample (ms); the samples of the traces are integers.           *)
EXTENDS Kit
LOCAL SX == INSTANCE SequencesExt
VARIABLE l
Drawn(e, r) == SubSeq(e.t[r.tr].d, r.k, r.k + r.n - 1)
MaxAbs(s) == FoldL(LAMBDA a, x : Max2(a, Abs(x)), 0, s)
\* samples that have to be drawn, samples that may be drawn (half a sample is left open)
Time(e, i, k) == e.t[i].t0 + (k - 1) * e.delta
Must(e, i) == {k \in 1..Len(e.t[i].d) : e.trim = <<>> \/ (Time(e, i, k) >= e.trim[1] + e.delta \div 2 + 2 /\ Time(e, i, k) <= e.trim[2] - e.delta \div 2 - 2)}
May(e, i) == {k \in 1..Len(e.t[i].d) : e.trim = <<>> \/ (Time(e, i, k) >= e.trim[1] - e.delta \div 2 - 2 /\ Time(e, i, k) <= e.trim[2] + e.delta \div 2 + 2)}
Shown(r) == r.k..(r.k + r.n - 1)
Range1(e, rows) == \A r \in Range(rows) : r.tr > 0 => (Must(e, r.tr) \subseteq Shown(r) /\ Shown(r) \subseteq May(e, r.tr))
Times(e, rows) == \A r \in Range(rows) : r.tr > 0 => (Near(r.t0, Time(e, r.tr, r.k), 2) /\ Near(r.t1, Time(e, r.tr, r.k + r.n - 1), 2))
Found(rows) == \A r \in Range(rows) : r.tr > 0
\* amplitude a (10^5) for peak p of maximum m and factor f (1/10): a * m = p * f * 10^4
Amp(a, p, f, m) == IF m = 0 THEN a = 0 ELSE Near(a * m, p * f * 10000, 2 * m)
Filled(e, rows, colors) == \A r \in Range(rows) : r.tr > 0 => LET d == Drawn(e, r) IN
   /\ colors[1] = 1 => \A k \in 1..(r.n - 1) : (d[k] > 0 /\ d[k + 1] > 0) => k \in Range(r.up)
   /\ colors[2] = 1 => \A k \in 1..(r.n - 1) : (d[k] < 0 /\ d[k + 1] < 0) => k \in Range(r.down)
   /\ \A k \in Range(r.up) : d[k] > 0 \/ d[k + 1] > 0
   /\ \A k \in Range(r.down) : d[k] < 0 \/ d[k + 1] < 0
Common(e, rows, colors) ==
  Bad(Found(rows), "lines-are-traces")
  \cup (IF ~Found(rows) THEN {} ELSE Bad(Range1(e, rows), "samples-within-the-trim") \cup Bad(Times(e, rows), "times-relative-to-the-onset")
        \cup Bad(\A r \in Range(rows) : r.amp = 0 \/ r.sign = 1, "polarity") \cup Bad(Filled(e, rows, colors), "filled-areas") \cup Bad(e.foreign = 0, "colors-of-the-filled-areas"))
\* --- receiver functions
Rows(e) == SX!SortSeq(e.rows, LAMBDA a, b : a.base < b.base)
OneId(e) == \A i \in 1..Len(e.t) : e.t[i].id = e.t[1].id
\* first sample and number of samples that are drawn of a trace; without the traces they are only known if nothing is trimmed
Len1(e) == IF e.show THEN {r.n : r \in Range(e.rows)} ELSE {Len(e.t[i].d) : i \in 1..Len(e.t)}
Label(e) ==
  IF Cardinality({e.t[i].id : i \in 1..Len(e.t)}) = 1 THEN e.t[1].id
  ELSE IF Cardinality({e.t[i].id2 : i \in 1..Len(e.t)}) = 1 THEN e.t[1].id2
  ELSE IF Cardinality({e.t[i].id3 : i \in 1..Len(e.t)}) = 1 THEN e.t[1].id3 ELSE ""
ClausesStack(e) ==
  IF (~e.show /\ e.trim # <<>>) \/ (e.show /\ {r.tr : r \in Range(e.rows)} # 1..Len(e.t)) THEN {} ELSE
  LET want == OneId(e) /\ Cardinality(Len1(e)) = 1 IN
  Bad((Len(e.stack) = 1) = want /\ Len(e.stack) < 2, "stack-of-comparable-traces-on-top")
  \cup (IF ~want \/ Len(e.stack) # 1 THEN {} ELSE
    LET s == e.stack[1]
        n == CHOOSE m \in Len1(e) : TRUE
        first(i) == IF e.show THEN (CHOOSE r \in Range(e.rows) : r.tr = i).k ELSE 1
        sum(k) == SumSeq([i \in 1..Len(e.t) |-> e.t[i].d[first(i) + k - 1]])
    IN Bad(Len(s.y) = n /\ \A k \in 1..Len(s.y) : Near(Len(e.t) * s.y[k], 1000 * sum(k), Len(e.t) + 1), "stack-is-the-mean-of-the-shown-traces")
       \cup Bad(Len(s.x) = n /\ \A k \in 1..Len(s.x) : Near(s.x[k], Time(e, 1, first(1) + k - 1), (e.delta \div 4) + 2), "times-of-the-stack"))
ClausesRf(e) ==
  IF e.exc # "" THEN {"plot-failed"} ELSE
     ClausesStack(e)
  \cup Bad(e.vlines => e.grid = 1, "grid-lines")
  \cup Bad(e.width = e.wanted_width, "figure-width") \cup Bad(e.dpi = e.wanted_dpi, "figure-resolution")
  \cup (IF ~e.show THEN Bad(e.rows = <<>> /\ e.info = <<>>, "only-the-stack") ELSE
     Common(e, e.rows, e.colors)
     \cup (IF ~Found(e.rows) THEN {} ELSE
        LET rows == Rows(e) m == FoldL(LAMBDA a, r : Max2(a, MaxAbs(Drawn(e, r))), 0, e.rows) IN
        Bad(Len(rows) = Len(e.t) /\ \A i \in 1..Len(rows) : rows[i].tr = i, "every-trace-once-from-bottom-to-top")
        \cup Bad(\A i \in 1..(Len(rows) - 1) : rows[i + 1].base - rows[i].base = 1000, "evenly-spaced")
        \cup Bad(\A r \in Range(rows) : Amp(r.amp, MaxAbs(Drawn(e, r)), e.scale, IF e.own THEN MaxAbs(Drawn(e, r)) ELSE m), "scaled-by-the-maximum")
        \cup Bad(\A r \in Range(rows) : e.xlim[2] >= r.t1 - 2 /\ e.xlim[1] <= r.t0 + 2 /\ e.ylim[1] < r.base /\ e.ylim[2] > r.base, "limits-show-all")
        \cup Bad(Len(e.info) = e.ninfo /\ \A j \in 1..Len(e.info) : Len(e.info[j]) = Len(e.t), "header-values-of-every-trace")
        \cup (IF Len(e.info) # e.ninfo \/ Len(rows) # Len(e.t) THEN {} ELSE
              Bad({[i \in 1..Len(x) |-> x[i]] : x \in Range(e.info)} = {[i \in 1..Len(e.t) |-> <<e.t[i].h[j], rows[i].base>>] : j \in 1..e.ninfo}, "header-values-beside-their-trace"))
        \cup Bad(e.title = ToString(Len(e.t)) \o " traces  " \o Label(e), "title")))
\* --- profile
TableTime(e, z) == LET S == {i \in 1..(Len(e.table) - 1) : e.table[i][1] <= z /\ z < e.table[i + 1][1]} IN
  IF S = {} THEN -1 ELSE LET i == CHOOSE j \in S : TRUE a == e.table[i] b == e.table[i + 1] IN
  a[2] + ((b[2] - a[2]) * ((z - a[1]) \div 100)) \div ((b[1] - a[1]) \div 100)
ClausesProfile(e) ==
  IF e.exc # "" THEN {"plot-failed"} ELSE
  Common(e, e.rows, e.colors)
  \cup Bad(e.width = e.wanted_width, "figure-width")
  \cup (IF ~Found(e.rows) THEN {} ELSE
     LET m == FoldL(LAMBDA a, r : Max2(a, MaxAbs(Drawn(e, r))), 0, e.rows)
         w == FoldL(LAMBDA a, t : Min2(a, t.len), 1000000, e.t) IN
     Bad(Len(e.rows) = Len(e.t) /\ {r.tr : r \in Range(e.rows)} = 1..Len(e.t), "every-trace-once")
     \cup Bad(\A r \in Range(e.rows) : Near(r.base, e.t[r.tr].pos, 1), "at-the-position-of-the-box")
     \* amplitudes are in km: amp / 10^5 = scale / 10 * peak / m * w / 1000
     \cup Bad(\A r \in Range(e.rows) : IF m = 0 THEN r.amp = 0 ELSE Near((r.amp \div (w \div 1000)) * m, MaxAbs(Drawn(e, r)) * e.scale * 10000, 3 * m), "scaled-by-the-maximum")
     \cup Bad(\A r \in Range(e.rows) : e.xlim[1] <= r.base /\ e.xlim[2] >= r.base, "limits-show-all")
     \cup Bad(\A r \in Range(e.rows) : e.ylim[1] >= r.t1 - 2 /\ e.ylim[2] <= r.t0 + 2, "time-increases-downwards"))
  \cup Bad(e.top = (e.bars # <<>>), "histogram-on-request")
  \cup (IF e.bars = <<>> THEN {} ELSE
      Bad({<<b.x0, b.x1, b.h>> : b \in Range(e.bars)} = {<<t.pos - t.len \div 2, t.pos + t.len \div 2, t.num * 1000>> : t \in Range(e.t)} /\ Len(e.bars) = Len(e.t), "histogram-shows-the-counts-of-the-boxes")
      \cup Bad(e.barlim = e.xlim, "histogram-above-the-profile"))
  \cup Bad(e.model = (e.table # <<>>), "depth-axis-on-request")
  \cup (IF e.table = <<>> THEN {} ELSE
      Bad(\A x \in Range(e.ticks) : TableTime(e, x[1]) = -1 \/ Near(x[2], TableTime(e, x[1]), 12), "depth-of-the-time") \cup Bad(e.depthlim = e.ylim, "depth-axis-along-the-time-axis")
      \cup Bad(e.ticks # <<>>, "depth-axis-without-ticks"))
\* --- harmonics
ClausesPanel(e, p, part) ==
  LET mine == {i \in 1..Len(e.t) : e.t[i].part = part} IN
  Common(e, p.rows, e.colors)
  \cup (IF ~Found(p.rows) THEN {} ELSE
     Bad(Len(p.rows) = Cardinality(mine) /\ {r.tr : r \in Range(p.rows)} = mine, "every-term-once-in-its-panel")
     \cup Bad(\A r \in Range(p.rows) : r.base = 1000 * (4 - e.t[r.tr].term), "term-at-its-row"))
Ref(e, second, all) == \* maximum of the drawn part of all terms of a decomposition
  LET S == {i \in 1..Len(e.t) : (e.t[i].part \in {"mod", "unmod"}) # second /\ (second => e.t[i].part = "second-mod")}
      rows == UNION {Range(p.rows) : p \in Range(e.panels)}
      m(i) == IF \E r \in rows : r.tr = i THEN MaxAbs(Drawn(e, CHOOSE r \in rows : r.tr = i)) ELSE 0
  IN FoldL(LAMBDA a, i : Max2(a, IF i \in S THEN m(i) ELSE 0), 0, [k \in 1..Len(e.t) |-> k])
ClausesHarm(e) ==
  IF e.exc # "" THEN {"plot-failed"} ELSE
  IF Len(e.panels) # 2 THEN {"two-panels"} ELSE
  LET right == IF e.second = 1 THEN "second-mod" ELSE "unmod" IN
  ClausesPanel(e, e.panels[1], "mod") \cup ClausesPanel(e, e.panels[2], right)
  \cup (IF ~Found(e.panels[1].rows) \/ ~Found(e.panels[2].rows) \/ (e.second = 1 /\ Len(e.parts) > 1 /\ e.trim # <<>>) THEN {} ELSE
     LET hidden == IF e.second = 1 THEN FoldL(LAMBDA a, i : Max2(a, IF e.t[i].part = "unmod" THEN MaxAbs(e.t[i].d) ELSE 0), 0, [k \in 1..Len(e.t) |-> k]) ELSE 0
         ref0 == Max2(hidden, Ref(e, FALSE, 0))
         ref1 == IF e.second = 1 THEN Ref(e, TRUE, 0) ELSE ref0 IN
     Bad(\A r \in Range(e.panels[1].rows) : Amp(r.amp, MaxAbs(Drawn(e, r)), 10, ref0), "scaled-by-the-maximum")
     \cup Bad(\A r \in Range(e.panels[2].rows) : Amp(r.amp, MaxAbs(Drawn(e, r)), 10, ref1), "scaled-by-the-maximum"))
  \cup Bad(e.panels[1].title = "anisotropy/dip QT" /\ e.panels[2].title = (IF e.second = 1 THEN "anisotropy/dip R" ELSE IF Len(e.parts) > 1 THEN "unmodeled QT" ELSE ""), "title")
  \cup Bad(\A x \in Range(e.labels) : x[2] = (CASE x[1] = 4000 -> "constant" [] x[1] = 3000 -> "cos($\\theta$)" [] x[1] = 2000 -> "sin($\\theta$)" [] x[1] = 1000 -> "cos($2\\theta$)" [] x[1] = 0 -> "sin($2\\theta$)" [] OTHER -> "") /\ Len(e.labels) = 5, "labels-of-the-terms")
\* --- maps
NearPt(a, b) == Near(a[1], b[1], 2) /\ Near(a[2], b[2], 2)
Match(got, want) == Len(got) = Len(want) /\ (\A x \in Range(got) : \E y \in Range(want) : NearPt(x, y)) /\ (\A y \in Range(want) : \E x \in Range(got) : NearPt(x, y))
ClausesMap(e) ==
  IF e.exc # "" THEN {"plot-failed"} ELSE
  LET s == e.what \in {"stations", "both", "all"} p == e.what \in {"points", "both", "all"} b == e.what \in {"boxes", "all"} IN
     Bad(Match(e.sta, IF s THEN e.wantsta ELSE <<>>), "stations-at-their-coordinates")
  \cup Bad(Match(e.pts, IF p THEN e.wantpts ELSE <<>>), "piercing-points-at-their-coordinates")
  \cup Bad(IF s /\ e.label THEN Len(e.names) = Len(e.wantsta) /\ \A y \in Range(e.wantsta) : \E x \in Range(e.names) : x[3] = y[3] /\ NearPt(x, y) ELSE e.names = <<>>, "names-at-the-stations")
  \cup Bad(IF b THEN Len(e.boxes) = e.nboxes /\ Range(e.boxes) = 1..e.nboxes ELSE e.boxes = <<>>, "every-box-once")
Files(e) == IF e.kind \in {"rf", "profile"} /\ e.exc = "" THEN Bad((e.saved = 1) = e.file /\ e.open = (IF e.file THEN 0 ELSE 1), "written-and-closed-or-left-open") ELSE {}
Clauses(e) == Bad(e.same, "plotting-changed-the-stream") \cup Files(e) \cup
  (CASE e.kind = "rf" -> ClausesRf(e) [] e.kind = "profile" -> ClausesProfile(e) [] e.kind = "harm" -> ClausesHarm(e) [] OTHER -> ClausesMap(e))
Init == l = 1
Next == l <= Len(Tr) /\ Report(l, Clauses(Tr[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
==============================================================================
