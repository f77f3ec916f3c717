------------------------------- MODULE Formats -------------------------------
(* Headers of a trace in memory, in the format specific dictionaries that are kept with the trace, and in files.          *)
(* Field classes: "own" has a field in SAC and Q; "com" has a field in SAC and is part of the comment in Q; "h5" can be   *)
(* stored by H5 only.  Formats: SAC, Q, QC (Q readable by SeismicHandler, without comment) and H5.                        *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Fields, Class(_), MaxVal, Fresh       \* Fresh FALSE: fields absent in memory are not removed from the dictionaries
VARIABLES mem, dict, ideal
vars == <<mem, dict, ideal>>
Fmts == {"SAC", "Q", "QC", "H5"}
Keeps(fmt, class) == CASE fmt = "H5" -> TRUE [] fmt = "QC" -> class = "own" [] OTHER -> class \in {"own", "com"}
Kept(fmt) == {f \in Fields : Keeps(fmt, Class(f))}
Restrict(h, S) == [f \in DOMAIN h \cap S |-> h[f]]
\* what a trace with headers h has after it was written and read
After(h, fmt) == Restrict(h, Kept(fmt))
Put(h, f, v) == [x \in DOMAIN h \cup {f} |-> IF x = f THEN v ELSE h[x]]
Drop(h, f) == Restrict(h, DOMAIN h \ {f})
Dict(fmt) == IF fmt = "SAC" THEN "sac" ELSE "sh"
Init == mem = <<>> /\ dict = [d \in {"sac", "sh"} |-> <<>>] /\ ideal = <<>>
Set(f, v) == mem' = Put(mem, f, v) /\ ideal' = Put(ideal, f, v) /\ UNCHANGED dict
Unset(f) == f \in DOMAIN mem /\ mem' = Drop(mem, f) /\ ideal' = Drop(ideal, f) /\ UNCHANGED dict
\* the dictionary of the format before it is written
Refreshed(fmt) == LET old == dict[Dict(fmt)] IN
                  LET new == [f \in (DOMAIN mem \cap Kept(fmt)) \cup (IF Fresh THEN {} ELSE DOMAIN old \cap Kept(fmt)) |-> IF f \in DOMAIN mem THEN mem[f] ELSE old[f]]
                  IN new
WriteRead(fmt) == /\ ideal' = After(ideal, fmt)
                  /\ IF fmt = "H5" THEN mem' = mem /\ UNCHANGED dict           \* H5 stores the dictionaries as well
                     ELSE mem' = Refreshed(fmt) /\ dict' = [d \in {"sac", "sh"} |-> IF d = Dict(fmt) THEN Refreshed(fmt) ELSE <<>>]
Next == (\E f \in Fields, v \in 1..MaxVal : Set(f, v)) \/ (\E f \in Fields : Unset(f)) \/ (\E fmt \in Fmts : WriteRead(fmt))
Spec == Init /\ [][Next]_vars
Roundtrip == mem = ideal
=============================================================================
