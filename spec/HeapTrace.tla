------------------------------ MODULE HeapTrace ------------------------------
(* heap: what is known of every live stream (by run and handle): [dig, hist, key] per trace.                          *)
EXTENDS Kit
VARIABLES l, heap
vars == <<l, heap>>
InPlaceOps == {"rf", "deconvolve", "rfnodec", "moveout", "ppoints", "rfstats", "trim2", "edit", "editdata"}
PureOps == {"copy", "slice2", "stack", "harmonics", "profile", "iterate", "write", "str", "plot_rf", "plot_profile"}
\* entries that an operation adds to every trace of its target or result
Entries(op) == CASE op = "rf" -> <<"deconvolve", "rf">> [] op = "rfnodec" -> <<"rf">> [] op = "deconvolve" -> <<"deconvolve">>
                 [] op = "moveout" -> <<"moveout">> [] op = "stack" -> <<"stack">> [] op = "harmonics" -> <<"harmonics">>
                 [] op = "profile" -> <<"profile">> [] OTHER -> <<>>
\* traces which are not among the responses are not part of the deconvolution
EntriesOf(e, t) == IF e.resp = "" \/ \E i \in 1..Len(e.resps) : e.resps[i] = t.comp THEN Entries(e.op)
                   ELSE SelectSeq(Entries(e.op), LAMBDA x : x # "deconvolve")
Handle(e, x) == <<e.run, x>>
Known(e, x) == heap[Handle(e, x)]
Live(e) == {e.live[i].h : i \in 1..Len(e.live)}
S(e, h) == CHOOSE x \in Range(e.live) : x.h = h
Traces(e, h) == S(e, h).traces
Digs(ts) == [i \in 1..Len(ts) |-> ts[i].dig]
Hists(ts) == {ts[i].hist : i \in 1..Len(ts)}
LastArgsOK(e, ts) == \A t \in Range(ts) : e.args # <<>> /\ EntriesOf(e, t) # <<>> => Range(e.args) \subseteq Range(t.args)
Clauses(e) ==
  IF e.exc # "" THEN {"operation-raised"} ELSE
     Bad(\A h \in Live(e) \ {e.r} : (e.op \in InPlaceOps /\ h = e.t) \/ Digs(Traces(e, h)) = Digs(Known(e, h)),
         IF e.op \in InPlaceOps THEN "other-stream-changed" ELSE "input-or-other-stream-changed")
  \cup (IF e.op \in InPlaceOps THEN
          LET pre == Known(e, e.t)  post == Traces(e, e.t) IN
          Bad(\A t \in Range(post) : \E p \in Range(pre) : p.key = t.key /\ t.hist = p.hist \o EntriesOf(e, t), "one-entry-after-the-earlier-ones")
          \cup Bad(LastArgsOK(e, post), "entry-names-the-arguments")
        ELSE {})
  \cup (IF e.r # 0 /\ e.t # 0 THEN
          LET pre == Known(e, e.t)  post == Traces(e, e.r) IN
          (CASE e.op = "copy" -> Bad(Digs(post) = Digs(pre), "copy-differs")
             [] e.op = "slice2" -> Bad(\A t \in Range(post) : \E p \in Range(pre) : p.key = t.key /\ t.hist = p.hist, "history-of-the-slice")
             [] e.op = "harmonics" -> Bad(\A t \in Range(post) : t.hist = <<"harmonics">>, "one-entry-after-the-earlier-ones")
             [] e.op \in {"stack", "profile"} -> Bad(\A t \in Range(post) : \E h \in Hists(pre) : t.hist = h \o Entries(e.op), "one-entry-after-the-earlier-ones"))
          \cup Bad(LastArgsOK(e, post), "entry-names-the-arguments")
        ELSE {})
Init == l = 1 /\ heap = <<>>
Next == /\ l <= Len(Tr) /\ l' = l + 1
        /\ LET e == Tr[l] IN
           /\ Report(l, Clauses(e))
           /\ heap' = IF e.op = "new" /\ e.r = 1 THEN (Handle(e, 1) :> Traces(e, 1))
                      ELSE [h \in {Handle(e, x) : x \in Live(e)} |-> Traces(e, h[2])]
Spec == Init /\ [][Next]_vars
=============================================================================
