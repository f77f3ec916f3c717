------------------------------ MODULE Profile ------------------------------
(* Boxes along a line: box i spans bins[i]..bins[i+1] along the line and     *)
(* w/2 to both sides.  Points are (along, off) in km.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
InBox(bins, w, i, pt) == bins[i] < pt[1] /\ pt[1] < bins[i + 1] /\ 2 * pt[2] < w /\ -w < 2 * pt[2]
\* index of the box of a point, 0 if there is none
BoxOf(bins, w, pt) == LET S == {i \in 1..Len(bins) - 1 : InBox(bins, w, i, pt)} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
\* twice the position
Pos2(bins, i) == bins[i] + bins[i + 1]
Length(bins, i) == bins[i + 1] - bins[i]
Members(bins, w, s, i, c) == SelectSeq([j \in 1..Len(s) |-> j], LAMBDA j : s[j].comp = c /\ BoxOf(bins, w, s[j].pt) = i)
Keys(bins, w, s) == {<<BoxOf(bins, w, s[j].pt), s[j].comp>> : j \in {k \in 1..Len(s) : BoxOf(bins, w, s[k].pt) # 0}}

(* design: traces arrive one by one and are added to the sum of their box and component                               *)
CONSTANTS Bins, Width, Along, Off, Comps, MaxLen
VARIABLES todo, acc, seen
vars == <<todo, acc, seen>>
TheBins == Bins
Init == /\ todo \in UNION {[1..n -> [pt : Along \X Off, comp : Comps]] : n \in 0..MaxLen}
        /\ acc = [k \in {} |-> 0] /\ seen = <<>>
Arrive == /\ todo # <<>> /\ todo' = Tail(todo) /\ seen' = Append(seen, Head(todo))
          /\ LET t == Head(todo)
                 k == <<BoxOf(TheBins, Width, t.pt), t.comp>>
             IN IF k[1] = 0 THEN UNCHANGED acc
                ELSE acc' = (k :> (IF k \in DOMAIN acc THEN acc[k] + 1 ELSE 1)) @@ acc
Next == Arrive
Spec == Init /\ [][Next]_vars
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN f[k] + Total(f, S \ {k})
Once == /\ DOMAIN acc = Keys(TheBins, Width, seen)
        /\ \A k \in DOMAIN acc : acc[k] = Len(Members(TheBins, Width, seen, k[1], k[2]))
        /\ Total(acc, DOMAIN acc) = Cardinality({j \in 1..Len(seen) : BoxOf(TheBins, Width, seen[j].pt) # 0})
\* no point is in two boxes, every point within the outer edges and the width but not on an edge is in one
Disjoint == \A a \in Along : \A o \in Off : \A i, j \in 1..Len(TheBins) - 1 :
   InBox(TheBins, Width, i, <<a, o>>) /\ InBox(TheBins, Width, j, <<a, o>>) => i = j
=============================================================================
