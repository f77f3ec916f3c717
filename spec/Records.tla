------------------------------- MODULE Records -------------------------------
(* Traces of several records (event-station pairs) in one stream are grouped again by the id without the component and   *)
(* the onset; every record is processed on its own, and only records with two or three components are rotated and         *)
(* deconvolved.  A trace is <<record, component>>; records have an id and an onset.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Ids, Onsets, MaxComp, ByOnset, ById       \* ById/ByOnset FALSE: faulty grouping
VARIABLES recs, stream, groups, done
vars == <<recs, stream, groups, done>>
Eligible(n) == n \in {2, 3}
\* recs: <<id, onset>> -> number of components (0: no such record)
Init == /\ recs \in [(Ids \X Onsets) -> 0..MaxComp] /\ Cardinality({r \in DOMAIN recs : recs[r] > 0}) \in 1..3
        /\ stream = {t \in (Ids \X Onsets) \X (1..MaxComp) : t[2] <= recs[t[1]]}
        /\ groups = <<>> /\ done = {}
Key(t) == <<IF ById THEN t[1][1] ELSE 0, IF ByOnset THEN t[1][2] ELSE 0>>
Keys == (Ids \cup {0}) \X (Onsets \cup {0})
Put(k, t) == IF k \in DOMAIN groups THEN [groups EXCEPT ![k] = @ \cup {t}] ELSE [x \in DOMAIN groups \cup {k} |-> IF x = k THEN {t} ELSE groups[x]]
\* traces arrive in any order
Take(r, c) == /\ <<r, c>> \in stream /\ stream' = stream \ {<<r, c>>} /\ groups' = Put(Key(<<r, c>>), <<r, c>>) /\ UNCHANGED <<recs, done>>
\* afterwards the groups are processed in any order
Process(k) == /\ stream = {} /\ k \in DOMAIN groups /\ groups' = [x \in DOMAIN groups \ {k} |-> groups[x]]
              /\ done' = IF Eligible(Cardinality(groups[k])) THEN done \cup {groups[k]} ELSE done
              /\ UNCHANGED <<recs, stream>>
Next == \/ \E r \in Ids \X Onsets, c \in 1..MaxComp : Take(r, c)
        \/ \E k \in Keys : Process(k)
Spec == Init /\ [][Next]_vars
Whole(r) == {<<r, c>> : c \in 1..recs[r]}
\* what is processed together is one whole record ...
Single == \A g \in done : \E r \in DOMAIN recs : g = Whole(r)
\* ... and every record with two or three components is, whatever else is in the stream
All == (stream = {} /\ DOMAIN groups = {}) => done = {Whole(r) : r \in {x \in DOMAIN recs : Eligible(recs[x])}}
Inv == Single /\ All
=============================================================================
