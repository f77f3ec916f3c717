------------------------------ MODULE Defaults ------------------------------
(* Calls of one operation in one process.  An option is left out, given as its default or given as another value (0 is a     *)
(* value like any other); "len" is an option whose default follows from the option "kind" that is in effect.                   *)
(* Fault: "none"; "falsy" (0 counts as left out); "early" (the default of len follows from the default of kind);               *)
(* "sticky" (a given value becomes the default of later calls); "consumed" (the options object of the caller is emptied).      *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Calls, Fault
VARIABLES n, def, obj, given, eff, hist
vars == <<n, def, obj, given, eff, hist>>
Names == {"kind", "len", "plain"}
Left == -1
V(o) == IF o = "kind" THEN {1, 2} ELSE {0, 1, 2}
Documented(o, kind) == IF o = "kind" THEN 1 ELSE IF o = "len" THEN kind ELSE 2
Sets == {f \in [Names -> {-1, 0, 1, 2}] : \A o \in Names : f[o] = Left \/ f[o] \in V(o)}
Init == n = 0 /\ def = [o \in Names |-> Left] /\ obj = [used |-> FALSE, len |-> Left] /\ given = [o \in Names |-> Left] /\ eff = given /\ hist = {}
IsLeft(x) == x = Left \/ (Fault = "falsy" /\ x = 0)
Fill(f) ==
  LET d(o, k) == IF def[o] # Left THEN def[o] ELSE Documented(o, k)
      kind == IF IsLeft(f["kind"]) THEN d("kind", 1) ELSE f["kind"]
      k2 == IF Fault = "early" THEN 1 ELSE kind
  IN [o \in Names |-> IF o = "kind" THEN kind ELSE IF IsLeft(f[o]) THEN d(o, k2) ELSE f[o]]
Do(f, g) == \* f: what the caller wrote, g: what arrives
  /\ n < Calls /\ n' = n + 1 /\ given' = f /\ eff' = Fill(g) /\ hist' = hist \cup {<<f, Fill(g)>>}
  /\ def' = IF Fault = "sticky" THEN [o \in Names |-> IF f[o] # Left THEN f[o] ELSE def[o]] ELSE def
\* the option len is written down in an object that the caller uses again and again
Call == \E f \in Sets : Do(f, f) /\ UNCHANGED obj
CallWithObject == \E f \in {x \in Sets : x["len"] = 1} :
  /\ LET l == IF obj.used THEN obj.len ELSE 1 IN Do(f, [f EXCEPT !["len"] = l]) /\ obj' = [used |-> TRUE, len |-> IF Fault = "consumed" THEN Left ELSE l]
Next == Call \/ CallWithObject
Spec == Init /\ [][Next]_vars
Value(f, o) == IF f[o] # Left THEN f[o] ELSE Documented(o, IF f["kind"] # Left THEN f["kind"] ELSE 1)
Given == n > 0 => \A o \in Names : given[o] # Left => eff[o] = given[o]
Default == n > 0 => \A o \in Names : eff[o] = Value(given, o)
\* two spellings of the same settings, and the same call later on, are the same
Same == \A a, b \in hist : (\A o \in Names : Value(a[1], o) = Value(b[1], o)) => a[2] = b[2]
Different == \A a, b \in hist : (\E o \in Names : Value(a[1], o) # Value(b[1], o)) => a[2] # b[2]
=============================================================================
