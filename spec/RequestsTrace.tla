---------------------------- MODULE RequestsTrace ----------------------------
(* Verdict of a request: "refuse" (an error, nothing changed), "raise" (an error), "accept" (no error), "free".        *)
EXTENDS Kit
VARIABLE l
DMethods == {"time", "waterlevel", "freq", "iterative", "multitaper", "func"}
Decide(refuse, accept) == IF refuse THEN "refuse" ELSE IF accept THEN "accept" ELSE "free"
Count(s, S) == Cardinality({i \in 1..Len(s) : s[i] \in S})
Deconv(e) == LET ns == Count(e.comps, Range(e.src))
                 nr == IF e.resp.any THEN Len(e.comps) ELSE Count(e.comps, Range(e.resp.c))
                 ok == e.method \in DMethods /\ ns = 1 /\ nr \in 1..3
             IN Decide(~ok, ok)
\* the method is given, or taken from the one phase all traces have
RfMethod(e) == IF e.method # "-" THEN e.method ELSE IF ~e.one THEN "?" ELSE CASE e.last[1] \in {"P", "p"} -> "P" [] e.last[1] \in {"S", "s"} -> "S" [] OTHER -> "?"
Rf(e) == LET ok == RfMethod(e) \in {"P", "S"} /\ e.dec \in DMethods \cup {"-", ""}
         IN Decide(~ok, ok /\ (e.dec \in {"-", ""} \/ e.src))
Harm(e) == LET ok == e.comps \in {"R", "T", "Q", "RT", "QT"} /\ Range(e.want) \subseteq Range(e.has) /\ e.method \in {"time", "freq"}
           IN Decide(~ok, ok)
Converted == {"Ps", "Sp", "PS", "Ppps", "Ppss", "Sppp", "Psss"}
Move(e) == LET odd == ~e.none /\ (e.len % 2 = 1 \/ e.len = 0)
               out == \E i \in 1..Len(e.pos) : e.pos[i] \in {"before", "after"}
           IN Decide(odd \/ out \/ e.model # "iasp91", e.none \/ e.phase \in Converted)
PP(e) == LET even == ~e.none /\ e.len % 2 = 0 IN Decide(even \/ e.model # "iasp91", e.none \/ e.len % 2 = 1)
Delays(e) == Decide(e.len % 2 = 1 \/ e.len = 0, e.phase \in Converted)
Meta(e) == LET givesE == e.given \in {"both", "event"}
               givesS == e.given \in {"both", "station"}
               refuse == \/ givesE /\ e.lack # ""
                         \/ givesS /\ e.slack # ""
                         \/ e.range = "default" /\ e.phase \notin {"P", "S", "p", "s"}
               unknown == (~givesE /\ e.old = "none") \/ (~givesS /\ e.old # "all")
           IN IF refuse THEN "refuse" ELSE IF unknown THEN "raise" ELSE IF e.phase \in {"P", "S", "PP", "PcP", "ScS"} THEN "accept" ELSE "free"
Verdict(e) == CASE e.op = "deconv" -> Deconv(e) [] e.op = "rf" -> Rf(e) [] e.op = "harm" -> Harm(e) [] e.op = "move" -> Move(e)
                [] e.op = "pp" -> PP(e) [] e.op = "delays" -> Delays(e) [] e.op = "meta" -> Meta(e)
Clauses(e) == LET v == Verdict(e) IN
     Bad(v \in {"refuse", "raise"} => e.raised, "invalid-request-accepted-" \o e.op)
  \cup Bad(v = "refuse" => e.kept, "changed-by-invalid-request-" \o e.op)
  \cup Bad(v = "accept" => ~e.raised, "valid-request-refused-" \o e.op)
Init == l = 1
Next == l <= Len(Tr) /\ l' = l + 1 /\ Report(l, Clauses(Tr[l]))
Spec == Init /\ [][Next]_l
=============================================================================
