SPECIFICATION Spec
CONSTANT
 N = 3
 Restore = "finally"
 Prepare = "outside"
INVARIANT Inv
CHECK_DEADLOCK FALSE
