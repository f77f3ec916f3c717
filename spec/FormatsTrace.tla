----------------------------- MODULE FormatsTrace -----------------------------
(* A line is a chain: for each step the changes of the headers, the format, and the traces read back (h: header values,   *)
(* id, start, sampling interval and data).  The headers expected after a step follow from those expected before it.        *)
EXTENDS Kit
VARIABLES l
vars == <<l>>
Com == {"station_latitude", "station_longitude", "station_elevation", "type", "phase", "moveout", "pp_latitude", "pp_longitude", "pp_depth", "box_pos", "box_length"}
H5Only == {"slowness_before_moveout", "box_lonlat", "event_id"}
Own == {"event_latitude", "event_longitude", "event_depth", "event_magnitude", "event_time", "onset", "distance", "back_azimuth", "inclination", "slowness"}
ClassOf(f) == CASE f \in Own -> "own" [] f \in Com -> "com" [] OTHER -> "h5"
F == INSTANCE Formats WITH Fields <- Own \cup Com \cup H5Only, Class <- ClassOf, MaxVal <- 0, Fresh <- TRUE, mem <- 0, dict <- 0, ideal <- 0
Change(h, ch) == LET h1 == ch.set @@ h IN F!Restrict(h1, DOMAIN h1 \ Range(ch.del))
Match(e, acc, s, i) == {k \in 1..Len(s.out) : s.out[k].id = e.ids[i] /\ Near(s.out[k].start, acc.start[i], 1)}
\* fields of the file that the documentation gives for the headers, as far as the format has them
Raw(fmt, h) == IF fmt = "H5" THEN <<>> ELSE F!After(h, fmt)
Step(e, acc, s) == \* acc: headers, start and data of the traces expected after this step
  Bad(s.exc = "", "failed")
  \cup (IF s.exc # "" THEN {} ELSE
       Bad(Len(s.out) = Len(e.ids), "number-of-traces")
       \cup UNION {IF Cardinality(Match(e, acc, s, i)) # 1 THEN {"ids-or-times"} ELSE
                   LET o == s.out[CHOOSE k \in Match(e, acc, s, i) : TRUE] IN
                   Bad(o.data = acc.data[i] /\ Near(o.delta, e.delta, 1), "data-or-sampling")
                   \cup Bad(DOMAIN acc.h[i] \subseteq DOMAIN o.h, "header-lost")
                   \cup Bad(DOMAIN o.h \subseteq DOMAIN acc.h[i], "header-out-of-nothing")
                   \cup Bad(\A f \in DOMAIN o.h \cap DOMAIN acc.h[i] : Near(o.h[f], acc.h[i][f], IF f \in {"event_time", "onset"} THEN 1 ELSE 0), "header-value")
                   \cup Bad(LET r == Raw(s.fmt, acc.h[i]) IN DOMAIN o.raw = DOMAIN r /\ \A f \in DOMAIN r : Near(o.raw[f], r[f], IF f \in {"event_time", "onset"} THEN 1 ELSE 0), "documented-field-of-the-format")
                   : i \in 1..Len(e.ids)})
Chain(e) ==
  FoldL(LAMBDA acc, s :
          LET new == [h |-> [i \in 1..Len(e.ids) |-> F!After(Change(acc.h[i], s.changes[i]), s.fmt)],
                      start |-> [i \in 1..Len(e.ids) |-> acc.start[i] + e.delta * Min2(s.cut, Len(acc.data[i]) - 1)],
                      data |-> [i \in 1..Len(e.ids) |-> SubSeq(acc.data[i], 1 + Min2(s.cut, Len(acc.data[i]) - 1), Len(acc.data[i]))]]
          IN [bad |-> IF acc.bad # {} THEN acc.bad ELSE Step(e, new, s)] @@ new,
        [h |-> [i \in 1..Len(e.ids) |-> <<>>], start |-> e.starts, data |-> e.data, bad |-> {}], e.steps).bad
Init == l = 1
Next == l <= Len(Tr) /\ l' = l + 1 /\ Report(l, Chain(Tr[l]))
Spec == Init /\ [][Next]_vars
=============================================================================
