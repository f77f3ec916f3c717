SPECIFICATION Spec
CONSTANT
 Bins <- BinsC
 Along <- AlongC
 Off <- OffC
 Width = 3
 Comps = {"Q", "T"}
 MaxLen = 2
INVARIANT Once
INVARIANT Disjoint
CHECK_DEADLOCK FALSE
