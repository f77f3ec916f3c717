---------------------------- MODULE WindowTrace ----------------------------
(* One event = one trim2/slice2 call: stream before, request, stream after. *)
EXTENDS Kit
VARIABLE l
W == INSTANCE Window WITH Starts <- {}, Deltas <- {}, Lens <- {}, Onsets <- {}, Vals <- {}, MaxOps <- 0,
                          orig <- 0, cur <- 0, win <- 0, nops <- 0
Core(t) == [start |-> t.start, delta |-> t.delta, data |-> t.data, onset |-> t.onset]
\* a request is in scope if the window starts no later than it ends for every trace
InScope(e) == \A t \in Range(e.pre) :
                (e.req.s.k # "none" /\ e.req.e.k # "none") =>
                  LET b(x) == CHOOSE y \in W!BoundSet(t, x, e.req.ref, e.req.refv) : TRUE
                  IN b(e.req.s) <= b(e.req.e)
Same(a, b) == /\ a.data = b.data /\ a.delta = b.delta /\ a.onset = b.onset
              /\ (Len(a.data) > 0 => a.start = b.start)
\* match post against the results of pre, in order; traces that may be empty may be missing
RECURSIVE Match(_, _, _, _, _)
Match(pre, post, i, j, r) ==
  IF i > Len(pre) THEN j > Len(post)
  ELSE LET res == W!Results(Core(pre[i]), r)
           drop == ~r.keep /\ \E x \in res : x.data = <<>>
       IN \/ drop /\ Match(pre, post, i + 1, j, r)
          \/ /\ j <= Len(post) /\ post[j].no = pre[i].no
             /\ \E x \in res : Same(x, Core(post[j])) /\ (r.keep \/ x.data # <<>>)
             /\ Match(pre, post, i + 1, j + 1, r)
Clauses(e) ==
  IF ~InScope(e) THEN {} ELSE
     Bad(e.exc = "", "call-raised")
  \cup (IF e.exc # "" THEN {} ELSE
     Bad(IsSubseq([j \in 1..Len(e.post) |-> e.post[j].no], [i \in 1..Len(e.pre) |-> e.pre[i].no]), "order-of-traces")
  \cup Bad(e.req.keep => Len(e.post) = Len(e.pre), "empty-traces-not-kept")
  \cup Bad(e.req.keep \/ \A t \in Range(e.post) : t.data # <<>>, "empty-traces-not-removed")
  \cup Bad(\A t \in Range(e.post) : t.onset = e.pre[CHOOSE i \in 1..Len(e.pre) : e.pre[i].no = t.no].onset, "onset-changed")
  \cup Bad(Match(e.pre, e.post, 1, 1, e.req), "samples-of-the-window")
  \cup Bad(e.headers, "other-headers-changed")
  \cup Bad(e.op = "slice" => e.kept, "slice-altered-the-stream")
  \cup Bad(e.op = "trim" => e.inplace, "trim-is-in-place-and-returns-the-stream"))
Init == l = 1
Next == l <= Len(Tr) /\ l' = l + 1 /\ Report(l, Clauses(Tr[l]))
Spec == Init /\ [][Next]_l
=============================================================================
