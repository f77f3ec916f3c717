SPECIFICATION Spec
CONSTANT
 Ids = {1, 2}
 Lens = {1, 2}
 Peaks = {0, 1, 2}
 MaxN = 3
 Fault = "mixed"
INVARIANT Once
INVARIANT InOrder
INVARIANT Comparable
INVARIANT Fits
INVARIANT Stacked
CHECK_DEADLOCK FALSE
