-------------------------------- MODULE RfCalc --------------------------------
(* The steps of a receiver function calculation.                                                                         *)
(*   opts: filter, trim, down, dec \in BOOLEAN, rot \in {"lqt", "rt", "none"}, method \in {"P", "S"}                       *)
(* Records are processed one after the other in any order within a step; a step is complete before the next starts.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Comps, Records                    \* Records: number of components of each record
Steps == <<"filter", "trim", "downsample", "rotate", "sign", "deconvolve", "mirror">>
\* the requested steps in the documented order
Wanted(o, s) == CASE s = "filter" -> o.filter [] s = "trim" -> o.trim [] s = "downsample" -> o.down [] s = "rotate" -> o.rot # "none"
                  [] s = "sign" -> TRUE [] s = "deconvolve" -> o.dec [] s = "mirror" -> o.method = "S"
Plan(o) == SelectSeq(Steps, LAMBDA s : Wanted(o, s))
\* what happens to one record with nc components
PlanFor(o, nc) == SelectSeq(Plan(o), LAMBDA s : s \in {"rotate", "deconvolve"} => nc \in {2, 3})
SourceComps(m) == IF m = "P" THEN {"L", "Z"} ELSE {"Q", "R"}

(* rotation with cosine and sine in fifths, results times 25                                                              *)
ZNE2LQT(z, n, e, cb, sb, ci, si) == <<5 * ci * z - si * cb * n - si * sb * e,
                                      5 * si * z + ci * cb * n + ci * sb * e,
                                      5 * sb * n - 5 * cb * e>>
NE2RT(n, e, cb, sb) == <<-5 * cb * n - 5 * sb * e, 5 * sb * n - 5 * cb * e>>

VARIABLES opts, at, done, log
vars == <<opts, at, done, log>>
Opts == [filter : BOOLEAN, trim : BOOLEAN, down : BOOLEAN, dec : BOOLEAN, rot : {"lqt", "rt", "none"}, method : {"P", "S"}]
Recs == 1..Len(Records)
Init == opts \in Opts /\ at = 1 /\ done = {} /\ log = [r \in Recs |-> <<>>]
Applies(s, r) == Wanted(opts, s) /\ (s \in {"rotate", "deconvolve"} => Records[r] \in {2, 3})
Process(r) == /\ at <= Len(Steps) /\ r \notin done /\ Applies(Steps[at], r)
              /\ log' = [log EXCEPT ![r] = Append(@, Steps[at])] /\ done' = done \cup {r} /\ UNCHANGED <<opts, at>>
NextStep == /\ at <= Len(Steps) /\ \A r \in Recs : r \in done \/ ~Applies(Steps[at], r)
            /\ at' = at + 1 /\ done' = {} /\ UNCHANGED <<opts, log>>
Next == NextStep \/ \E r \in 1..Len(Records) : Process(r)
Spec == Init /\ [][Next]_vars
Finished == at > Len(Steps)
Documented == Finished => \A r \in Recs : log[r] = PlanFor(opts, Records[r])
Untouched == \A r \in Recs : Records[r] \notin {2, 3} => \A i \in 1..Len(log[r]) : log[r][i] \notin {"rotate", "deconvolve"}
\* the rotation keeps lengths: columns are orthonormal
RECURSIVE SumSq(_)
SumSq(s) == IF s = <<>> THEN 0 ELSE s[1] * s[1] + SumSq(Tail(s))
Angles == {<<5, 0>>, <<0, 5>>, <<-5, 0>>, <<0, -5>>, <<3, 4>>, <<-4, 3>>}
ASSUME \A b \in Angles, i \in {<<5, 0>>, <<0, 5>>, <<3, 4>>, <<4, 3>>} : \A z, n, e \in -1..1 :
          SumSq(ZNE2LQT(z, n, e, b[1], b[2], i[1], i[2])) = 625 * SumSq(<<z, n, e>>)
\* energy travelling along the ray (upwards, coming from the back azimuth) is on L only
ASSUME \A b \in Angles, i \in {<<5, 0>>, <<0, 5>>, <<3, 4>>, <<4, 3>>} :
          LET v == ZNE2LQT(5 * i[1], -i[2] * b[1], -i[2] * b[2], b[1], b[2], i[1], i[2]) IN v[1] = 625 /\ v[2] = 0 /\ v[3] = 0
=============================================================================
