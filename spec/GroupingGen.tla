---------------------------- MODULE GroupingGen ----------------------------
EXTENDS Grouping, Kit
VARIABLE out
GInit == Init /\ out = FALSE
Grow == Append1 /\ UNCHANGED out
EmitCase == /\ pos = 0 /\ ~out /\ out' = TRUE /\ pos' = -1
            /\ Emit([stream |-> stream, usekey |-> usekey, sizes |-> sizes])
            /\ UNCHANGED <<stream, usekey, sizes, buckets, result>>
GNext == Grow \/ EmitCase
GSpec == GInit /\ [][GNext]_<<vars, out>>
=============================================================================
